"""Small DDLm dictionaries written as text, and read the way a user reads them."""
import io
from mc.core import Skip

HEAD = """#\\#CIF_2.0
data_T
_dictionary.title T
_dictionary.class Instance
_dictionary.version 1.0
_dictionary.date 2020-01-01
_dictionary.uri t.dic
_dictionary.ddl_conformance 4.0
_dictionary.namespace T
_description.text 'x'
save_HEADCAT
_definition.id HEADCAT
_definition.scope Category
_definition.class Head
_description.text 'head'
_name.category_id T
_name.object_id HEADCAT
save_
"""


def methods(meth):
    if not meth:
        return ""
    return "loop_\n_method.purpose\n_method.expression\n" + "".join("Evaluation\n;\n%s\n;\n" % m for m in meth)


def cat(name, cls="Set", key=None, meth=None, parent="HEADCAT", extra=""):
    s = ('save_%s\n_definition.id %s\n_definition.scope Category\n_definition.class %s\n_description.text "x"\n'
         '_name.category_id %s\n_name.object_id %s\n' % (name, name, cls, parent, name)) + extra
    if key:
        s += "loop_\n_category_key.name\n" + "\n".join("'_%s.%s'" % (name, k) for k in key) + "\n"
    return s + methods(meth) + "save_\n"


def item(c, o, typ="Real", purpose="Number", source="Derived", meth=(), default=None, alias=(), container="Single", extra="", name=None, dim=None):
    name = name or "_%s.%s" % (c, o)
    s = ("save_%s\n_definition.id '%s'\n_description.text 'x'\n_name.category_id %s\n_name.object_id %s\n"
         "_type.purpose %s\n_type.source %s\n_type.container %s\n_type.contents %s\n" % (
             name[1:], name, c, o, purpose, source, container, typ)) + extra
    if dim is not None:
        s += "_type.dimension %s\n" % dim
    if alias:
        s += "loop_\n_alias.definition_id\n" + "\n".join("'%s'" % a for a in alias) + "\n"
    if default is not None:
        s += "_enumeration.default '%s'\n" % default
    return s + methods(meth) + "save_\n"


def func(name, text):
    return ("save_function.%s\n_definition.id '_function.%s'\n_description.text 'x'\n_name.category_id function\n_name.object_id %s\n"
            "_type.purpose Encode\n_type.source Derived\n_type.container Single\n_type.contents Real\n"
            "loop_\n_method.purpose\n_method.expression\nEvaluation\n;\n%s\n;\nsave_\n" % (name, name, name, text))


FUNCCAT = ("save_function\n_definition.id function\n_definition.scope Category\n_definition.class Functions\n_description.text 'x'\n"
           "_name.category_id HEADCAT\n_name.object_id function\nsave_\n")


def load(text, **kw):
    import CifFile
    kw.setdefault("grammar", "2.0")
    return CifFile.CifDic(CifFile.ReadCif(io.StringIO(HEAD + text), grammar="2.0"), **kw)


def block(text, dic=None):
    import CifFile
    b = CifFile.ReadCif(io.StringIO("#\\#CIF_2.0\ndata_x\n" + text + "\n"), grammar="2.0")["x"]
    if dic is not None:
        b.assign_dictionary(dic)
    return b
