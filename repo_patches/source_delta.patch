From 7e3824fd8bb71e96a9fa359968b710443fc49878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 001/154] fix: protect text that itself looks folded or
 prefixed when writing it out

---
 src/StarFile.nw | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index f4e6e89..2e91372 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2766,7 +2766,8 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
     # we are left with semicolon strings
     # use our protocols:
     maxlinelength = max([len(a) for a in instring.split('\n')])
-    if maxlinelength > self.maxoutlength:
+    if maxlinelength > self.maxoutlength or \
+       remove_line_folding(remove_line_prefix(instring)) != instring:
         protocol_string = apply_line_folding(instring)
     else:
         protocol_string = instring
@@ -2826,13 +2827,14 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
     # first check that we need to do this
     lines = instring.split('\n')
     line_len = [len(l) for l in lines]
-    if max(line_len) < maxwraplength and re.match("\\[ \v\t\f]*\n",instring) is None:
+    # text that would itself be taken as folded or prefixed must be protected by folding
+    if max(line_len) < maxwraplength and remove_line_folding(remove_line_prefix(instring)) == instring:
         return instring
     outstring = "\\\n"   #header
     for l in lines:
         if len(l) < maxwraplength:
             outstring = outstring + l
-            if len(l) > 0 and l[-1]=='\\': #who'da thunk it?  A line ending with a backslash
+            if re.search(r"\\[ \v\t\f]*$",l) is not None: #who'da thunk it?  A line ending with a backslash
                     outstring = outstring + "\\\n"  #
             outstring = outstring + "\n"  #  put back the split character
         else:
@@ -2846,7 +2848,7 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
                     outstring = outstring + current_bit[:maxwraplength-1] + "\\\n"
                     current_bit = current_bit[maxwraplength-1:]
             outstring = outstring + current_bit
-            if current_bit[-1] == '\\':  #a backslash just happens to be here
+            if re.search(r"\\[ \v\t\f]*$",current_bit) is not None:  #a backslash just happens to be here
                 outstring = outstring + "\\\n"
             outstring = outstring + '\n'
     outstring = outstring[:-1]  #remove final newline
-- 
2.43.0


From d03df23f806707096b91dd49fd52c302fb0a36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 002/154] fix: folding at white space never exceeds the maximum
 wrap length

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 2e91372..725f75e 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2841,7 +2841,7 @@ def apply_line_folding(instring,minwraplength=60,maxwraplength=80):
             current_bit = l
             while len(current_bit) > maxwraplength:
                 space_pos = re.search('[ \v\f\t]+',current_bit[minwraplength:])
-                if space_pos is not None and space_pos.start()<maxwraplength-1:
+                if space_pos is not None and minwraplength+space_pos.start()<maxwraplength:
                     outstring = outstring + current_bit[:minwraplength+space_pos.start()] + "\\\n"
                     current_bit = current_bit[minwraplength+space_pos.start():]
                 else:    #just blindly insert
-- 
2.43.0


From f4d6e9ccf01b16a9120eb26f17c8ead127f53771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 003/154] fix: text prefix is removed only when every line
 carries it, also for one-character prefixes

---
 src/StarFile.nw | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 725f75e..8be68de 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2903,9 +2903,12 @@ replacement in case the prefix contains significant characters.
 <<Remove line indent>>=
 def remove_line_prefix(instring):
     """Remove prefix from every line if present"""
-    prefix_match = re.match("(?P<prefix>[^;\\\n][^\n\\\\]+)(?P<folding>\\\\{1,2}[ \t\v\f]*\n)",instring)
+    prefix_match = re.match("(?P<prefix>[^;\\\\\n][^\n\\\\]*)(?P<folding>\\\\{1,2}[ \t\v\f]*\n)",instring)
     if prefix_match is not None:
         prefix_text = prefix_match.group('prefix')
+        # the protocol applies only if every line carries the prefix
+        if [a for a in instring.split('\n')[1:] if not a.startswith(prefix_text)]:
+            return instring
         print('Found prefix %s' % prefix_text)
         prefix_end = prefix_match.end('folding')
         # keep any line folding instructions
-- 
2.43.0


From d60c3f8809b84372c156cb81ebe3d08d90401e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 004/154] fix: never write text that starts with loop_ or stop_
 undelimited

---
 src/StarFile.nw | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 8be68de..08104a4 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2724,7 +2724,7 @@ We have to catch empty strings as well, which are legal.  Another gotcha
 concerns 'embedded' strings; if the datavalue begins with a quote, it
 will be output verbatim (and misunderstood) unless spaces elsewhere
 force quotation.  Note that non-delimited strings may not start with
-a reserved word ('data','save','global').
+a reserved word ('data','save','global','loop_','stop_').
 
 The caller is allowed to request a particular delimiter, with 'None'
 corresponding to no delimiter and the choices being apostrophe,
@@ -2754,6 +2754,8 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
             allowed_delimiters.difference_update([None])
     if len(instring)>5 and instring[:6].lower()=='global':
             allowed_delimiters.difference_update([None])
+    if instring[:5].lower() in ('loop_','stop_'):
+            allowed_delimiters.difference_update([None])
     if '"' in instring: allowed_delimiters.difference_update(['"',None])
     if "'" in instring: allowed_delimiters.difference_update(["'",None])
     out_delimiter = "\n;"  #default (most conservative)
-- 
2.43.0


From d25061abb39cc67376b5b664f4194a5bba3a00a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 005/154] fix: delimit table keys with quotes that do not occur
 in the key

---
 src/StarFile.nw | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 08104a4..c698357 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2638,11 +2638,11 @@ def format_value(self,itemvalue,stringsink,compound=False,hints={}):
        stringsink.write('{',newindent=True,mustbreak=compound,startcol=startcol)  #start a new line inside
        items = list(itemvalue.items())
        if len(items)>0:
-           stringsink.write("'"+items[0][0]+"'"+':',canbreak=True)
+           stringsink.write(self._formatkey(items[0][0])+':',canbreak=True)
            self.format_value(items[0][1],stringsink)
            for key,value in items[1:]:
                stringsink.write(self.list_delimiter)
-               stringsink.write("'"+key+"'"+":",canbreak=True)
+               stringsink.write(self._formatkey(key)+":",canbreak=True)
                self.format_value(value,stringsink)   #never break between key and value
        stringsink.write('}',unindent=True)
     elif isinstance(itemvalue,(float,int,long)) or \
@@ -2651,6 +2651,18 @@ def format_value(self,itemvalue,stringsink,compound=False,hints={}):
     else:
        raise ValueError('Value in unexpected format for output: %s' % repr( itemvalue ))
 
+@ Table keys are always delimited by quotes, and never by semicolons. A key that
+contains both types of quote, or a line feed, needs triple quotes.
+
+<<Format a data value>>=
+def _formatkey(self,key):
+    """Return table key `key` surrounded by quotes that do not appear in it"""
+    for d in ["'",'"']:
+        if d not in key and '\n' not in key: return d + key + d
+    for d in ["'''",'"""']:
+        if d not in key and key[-1] != d[0]: return d + key + d
+    raise StarError('No delimiter available for table key %s' % repr( key ))
+
 @ Formatting a loop section.  We are passed an indent and destination string,
 and are expected to append a list of item names to the string indented by
 the indicated number of spaces.  If we have loops, we add those in too.
-- 
2.43.0


From 1f6623db181fb19121c3e9b07792b1e86cb6cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 006/154] fix: WriteOut accepts maxoutlength instead of failing
 with AttributeError

---
 src/StarFile.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index c698357..ffefb98 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -843,8 +843,8 @@ initialising the file.
         `saves_after` inserts all save frames after the given dataname,
         which allows less important items to appear later.  Useful in conjunction with a
         template for dictionary files."""
-        if maxoutlength != 0:
-            self.SetOutputLength(maxoutlength)
+        if maxoutlength == 0:
+            maxoutlength = self.maxoutlength
         if not comment:
             comment = self.header_comment
         outstring = StringIO()
@@ -855,7 +855,7 @@ initialising the file.
         for b in self.dictionary.values():
             b.set_grammar(self.grammar)
             b.formatting_hints = self.master_template
-            b.SetOutputLength(wraplength,self.maxoutlength)
+            b.SetOutputLength(wraplength,maxoutlength)
         # loop over top-level
         # monitor output
         all_names = list(self.child_table.keys())   #i.e. lower case
-- 
2.43.0


From 3050b46de93b804aa58bbca40b87cfdf85d294b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 007/154] fix: keep output lines within wraplength and
 maxoutlength, and always separate loop values

---
 src/StarFile.nw | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index ffefb98..740ee4c 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2428,10 +2428,11 @@ to the number of characters from the beginning of the line.
 
 <<Subclass StringIO>>=
 class CIFStringIO(StringIO):
-    def __init__(self,target_width=80,**kwargs):
+    def __init__(self,target_width=80,max_width=2048,**kwargs):
         StringIO.__init__(self,**kwargs)
         self.currentpos = 0
         self.target_width = target_width
+        self.max_width = max_width
         self.tabwidth = -1
         self.indentlist = [0]
         self.last_char = ""
@@ -2451,15 +2452,19 @@ class CIFStringIO(StringIO):
             self.last_char = temp_string[-1]
         if self.currentpos+len(outstring)>self.target_width: #try to break
             if not delimiter and outstring[0]!='\n':          #ie <cr>;
-              if canbreak:
-                temp_string = '\n' + ' ' * self.indentlist[-1]
+              first_len = len(outstring.split('\n')[0])
+              if canbreak or self.currentpos+first_len > self.max_width:
+                indent = max(0,min(self.indentlist[-1],self.max_width-first_len))
+                temp_string = '\n' + ' ' * indent
                 StringIO.write(self,temp_string)
-                self.currentpos = self.indentlist[-1]
+                self.currentpos = indent
                 self.last_char = temp_string[-1]
             else:        #assume a break will be forced on next value
                 output_delimiter = False    #the line break becomes the delimiter
+        #never pad past the maximum line length
+        pad_limit = self.max_width - len(outstring.split('\n')[0])
         #try to match requested column
-        if startcol > 0:
+        if startcol > 0 and startcol <= pad_limit:
             if self.currentpos < startcol:
                 StringIO.write(self,(startcol - self.currentpos)* ' ')
                 self.currentpos = startcol
@@ -2471,7 +2476,7 @@ class CIFStringIO(StringIO):
         if self.tabwidth >0 and do_tab and startcol < 0:
             next_stop = ((self.currentpos//self.tabwidth)+1)*self.tabwidth
             #print 'Currentpos %d: Next tab stop at %d' % (self.currentpos,next_stop)
-            if self.currentpos < next_stop:
+            if self.currentpos < next_stop and next_stop <= pad_limit:
                 StringIO.write(self,(next_stop-self.currentpos)*' ')
                 self.currentpos = next_stop
                 self.last_char = ' '
@@ -2570,7 +2575,8 @@ def printsection(self,instring='',blockstart="",blockend="",indent=0,finish_at='
     self.create_ordering(finish_at,start_from)  #create self.output_order
     # now do it...
     if not instring:
-        outstring = CIFStringIO(target_width=80)       # the returned string
+        # the returned string
+        outstring = CIFStringIO(target_width=self.wraplength,max_width=self.maxoutlength)
     else:
         outstring = instring
     # print block delimiter
@@ -2635,7 +2641,7 @@ def format_value(self,itemvalue,stringsink,compound=False,hints={}):
        stringsink.write(']',unindent=True)
     elif isinstance(itemvalue,dict):
        stringsink.set_tab(0)
-       stringsink.write('{',newindent=True,mustbreak=compound,startcol=startcol)  #start a new line inside
+       stringsink.write('{',canbreak=True,newindent=True,mustbreak=compound,startcol=startcol)  #start a new line inside
        items = list(itemvalue.items())
        if len(items)>0:
            stringsink.write(self._formatkey(items[0][0])+':',canbreak=True)
@@ -2713,7 +2719,7 @@ def format_packet_item(self,pack_item,indent,outstring,format_hint):
        if isinstance(pack_item,unicode):
            delimiter = format_hint.get('delimiter',None)
            startcol = format_hint.get('column',-1)
-           outstring.write(self._formatstring(pack_item,delimiter=delimiter),startcol=startcol)
+           outstring.write(self._formatstring(pack_item,delimiter=delimiter),canbreak=True,startcol=startcol)
        else:
            self.format_value(pack_item,outstring,hints = format_hint)
 
@@ -2778,18 +2784,21 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
     if out_delimiter in ['"',"'",'"""',"'''"]: return out_delimiter + instring + out_delimiter
     elif out_delimiter is None: return instring
     # we are left with semicolon strings
-    # use our protocols:
-    maxlinelength = max([len(a) for a in instring.split('\n')])
+    # use our protocols, leaving room for the prefix and the opening semicolon
+    prefix = "CIF:"
+    while prefix in instring: prefix = prefix + ":"
+    prefix = prefix + "> "
+    maxlinelength = max([len(a) for a in (';'+instring).split('\n')])
+    if "\n;" in instring: maxlinelength = maxlinelength + len(prefix)
     if maxlinelength > self.maxoutlength or \
        remove_line_folding(remove_line_prefix(instring)) != instring:
-        protocol_string = apply_line_folding(instring)
+        maxwrap = min(80,self.maxoutlength-len(prefix)-1)
+        protocol_string = apply_line_folding(instring,min(60,maxwrap-1),maxwrap)
     else:
         protocol_string = instring
     # now check for embedded delimiters
     if "\n;" in protocol_string:
-        prefix = "CIF:"
-        while prefix in protocol_string: prefix = prefix + ":"
-        protocol_string = apply_line_prefix(protocol_string,prefix+"> ")
+        protocol_string = apply_line_prefix(protocol_string,prefix)
     return "\n;" + protocol_string + "\n;"
 
 @ Converting a value to a string.
-- 
2.43.0


From 7eef75d2e2015ba53f6fdcc23144b25cd636d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 008/154] fix: triple quotes requested by a template are only
 used for text they can delimit

---
 src/StarFile.nw | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 740ee4c..248d7fd 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2776,6 +2776,10 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
             allowed_delimiters.difference_update([None])
     if '"' in instring: allowed_delimiters.difference_update(['"',None])
     if "'" in instring: allowed_delimiters.difference_update(["'",None])
+    longest = max([len(a) for a in instring.split('\n')])
+    for k in ["'''",'"""']:   #closing delimiter must be the first occurrence in a legal line
+        if k in instring or instring[-1:]==k[0] or longest > self.maxoutlength-6:
+            allowed_delimiters.difference_update([k])
     out_delimiter = "\n;"  #default (most conservative)
     if delimiter in allowed_delimiters:
         out_delimiter = delimiter
-- 
2.43.0


From 76fe60204123e9366a8ce351337c14d6caea2982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 009/154] fix: printing a block does not switch off the
 provision of derived values

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 248d7fd..0302cec 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2570,6 +2570,7 @@ tab stop at 40 characters.  And of course, we stop providing values.
 
 <<Print a complete block>>=
 def printsection(self,instring='',blockstart="",blockend="",indent=0,finish_at='',start_from=''):
+    old_provide_value = self.provide_value
     self.provide_value = False
     # first make an ordering
     self.create_ordering(finish_at,start_from)  #create self.output_order
@@ -2613,6 +2614,7 @@ def printsection(self,instring='',blockstart="",blockend="",indent=0,finish_at='
     else:
         returnstring = outstring.getvalue()
     outstring.close()
+    self.provide_value = old_provide_value
     return returnstring
 
 @ Formatting a data value. Data values may be stored as strings, numbers or compound values.  We call this routine recursively to format data values.  We use [[compound]] to flag that we are an embedded compound value, so that
-- 
2.43.0


From e99603493d9b95d849831a4f14e4f6978f0233e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 010/154] fix: keep text-field lines that start with # instead
 of reading them as comments

---
 src/yapps3_compiled_rt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapps3_compiled_rt.py b/src/yapps3_compiled_rt.py
index 2ab71f7..1d5ae66 100644
--- a/src/yapps3_compiled_rt.py
+++ b/src/yapps3_compiled_rt.py
@@ -220,12 +220,16 @@ class Scanner:
         # Keep looking for a token, ignoring any in self.ignore
         while 1:
             # Search the patterns for the longest match, with earlier
-            # tokens in the list having preference
+            # tokens in the list having preference.  A wanted token is
+            # preferred over ignored text, as a line of text may look
+            # like a comment.
             best_match = -1
             best_pat = '(error)'
             for p,regexp in accepted_patterns:
                 m = regexp.match(self.input, self.pos)
-                if m and len(m.group(0)) > best_match:
+                if m and (len(m.group(0)) > best_match or
+                          (len(m.group(0)) == best_match and
+                           best_pat in self.ignore and p not in self.ignore)):
                     # We got a match that's better than the previous one
                     best_pat = p
                     best_match = len(m.group(0))
-- 
2.43.0


From 725771568fa7090579f3adac9a5b944be3abd026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 011/154] fix: always delimit text that contains non-ASCII
 white space

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 0302cec..035a0f7 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2768,6 +2768,8 @@ def _formatstring(self,instring,delimiter=None,standard='CIF1',indent=0,hints={}
     if len(instring) > (self.maxoutlength-2) or '\n' in instring:
             allowed_delimiters.intersection_update(["\n;","'''",'"""'])
     [allowed_delimiters.difference_update([None]) for k in '[]{}\v\t ,' if k in instring]
+    if re.search(r'\s',instring) is not None:  #including non-ASCII white space
+            allowed_delimiters.difference_update([None])
     if len(instring)>0 and instring[0] in '_$#;(':
             allowed_delimiters.difference_update([None])
     if len(instring)>3 and (instring[:4].lower()=='data' or instring[:4].lower()=='save'):
-- 
2.43.0


From 2a05578ae5f3d525810a894997ea57a15e7f7aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 012/154] fix: an empty list as the last value of a loop is not
 dropped

---
 src/YappsStarParser.nw | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index e156e9c..03b8498 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -121,14 +121,9 @@ def striptriple(value):
 
 # helper function to populate a StarBlock given a list of names
 # and values .
-#
-# Note that there may be an empty list at the very end of our itemlists,
-# so we remove that if necessary.
-#
 
 def makeloop(target_block,loopdata):
     loop_seq,itemlists = loopdata
-    if itemlists[-1] == []: itemlists.pop(-1)
     # print('Making loop with %s' % repr(itemlists))
     step_size = len(loop_seq)
     for col_no in range(step_size):
-- 
2.43.0


From 82158476fc216322c1dafeabd03e6fd251802c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 013/154] fix: padding to a tab stop never pushes a value past
 the wrap length

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 035a0f7..dac4f88 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2476,7 +2476,7 @@ class CIFStringIO(StringIO):
         if self.tabwidth >0 and do_tab and startcol < 0:
             next_stop = ((self.currentpos//self.tabwidth)+1)*self.tabwidth
             #print 'Currentpos %d: Next tab stop at %d' % (self.currentpos,next_stop)
-            if self.currentpos < next_stop and next_stop <= pad_limit:
+            if self.currentpos < next_stop and next_stop+len(outstring) <= self.target_width:
                 StringIO.write(self,(next_stop-self.currentpos)*' ')
                 self.currentpos = next_stop
                 self.last_char = ' '
-- 
2.43.0


From e9886b71c2dbbf3717ba5b5da61c4902e97a0742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 014/154] fix: items after a save frame named like the
 enclosing block stay in the enclosing block

---
 src/YappsStarParser.nw | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 03b8498..632c163 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -411,7 +411,7 @@ rule input@<<prepared>>: ( ((
 
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<stored_block>>
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=stored_block)}}
                       )*
@@ -423,7 +423,7 @@ whereas CIF2 has space-separated elements.
 <<STAR2-specific grammar>>=
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<stored_block>>
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=stored_block)}}
                       )*
@@ -454,7 +454,7 @@ whereas CIF2 has space-separated elements.
 <<CIF2-specific grammar>>=
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile(characterset='unicode');newname = savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));stored_block = savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<stored_block>>
                       )*
                       save_end           {{return monitor('save_frame',savebc)}}
 
@@ -502,12 +502,12 @@ rule input@<<prepared>>: ( ((
 
     rule dblock@<<prepared>>: ( data_heading {{heading = data_heading[5:];thisbc=StarFile(characterset='unicode',standard=prepared.standard);newname = thisbc.NewBlock(heading,prepared.blocktype(overwrite=False));act_block=thisbc[newname]}}# a data heading
                   (
-                   dataseq@<<thisbc[heading]>>
+                   dataseq@<<act_block>>
                   |
                   save_frame@<<prepared>>     {{thisbc.merge_fast(save_frame,parent=act_block)}}
                   )*
 # A trick to force rechecking of all datanames, which was skipped by the precheck = True option below
-                   )                      {{thisbc[heading].setmaxnamelength(thisbc[heading].maxnamelength);return (monitor('dblock',thisbc))}} # but may be empty
+                   )                      {{act_block.setmaxnamelength(act_block.maxnamelength);return (monitor('dblock',thisbc))}} # but may be empty
 
      rule dataseq@<<starblock>>:  data@<<starblock>>
 		       (
@@ -555,7 +555,7 @@ rule input@<<prepared>>: ( ((
 
      rule save_frame@<<prepared>>: save_heading   {{savehead = save_heading[5:];savebc = StarFile();newname=savebc.NewBlock(savehead,prepared.blocktype(overwrite=False));act_block=savebc[newname] }} 
                       (
-                      dataseq@<<savebc[savehead]>>
+                      dataseq@<<act_block>>
                       |
                       save_frame@<<prepared>>     {{savebc.merge_fast(save_frame,parent=act_block)}}
                       )*
-- 
2.43.0


From d53bdb23f1e76888fb50ed373ce24c7f58cd4887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 015/154] fix: deleting a block also works when it or its
 children are not visible

---
 src/StarFile.nw | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index dac4f88..a125a31 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -328,10 +328,8 @@ def __delitem__(self,key):
         del self[child]   #recursive call
     del self.dictionary[lowerkey]
     del self.child_table[lowerkey]
-    try:
+    if lowerkey in self.visible_keys:
         self.visible_keys.remove(lowerkey)
-    except KeyError:
-        pass
     self.lower_keys.remove(lowerkey)
     self.block_input_order.remove(lowerkey)
 
-- 
2.43.0


From 119cf826ac41902771cc443d750ad88994796295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 016/154] fix: merging files with equal frame and block names
 neither loses blocks nor fails

---
 src/StarFile.nw | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index a125a31..f8d55e6 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -690,6 +690,11 @@ def merge_fast(self,new_bc,parent=None):
     else:
         mode = 'strict'
     overlap_flag = not self.lower_keys.isdisjoint(new_bc.lower_keys)
+    if mode == 'strict' and parent is None:   #a data block may be stored under a different key
+        our_top = [a.block_id.lower() for a in self.child_table.values() if a.parent is None]
+        their_top = [a.block_id.lower() for a in new_bc.child_table.values() if a.parent is None]
+        for dup_name in sorted(set(our_top).intersection(their_top)):
+            raise StarError("In strict merge mode:duplicate keys %s" % dup_name)
     if parent is not None:
         parent_name = [a[0] for a in self.dictionary.items() if a[1] == parent]
         if len(parent_name)==0 or len(parent_name)>1:
@@ -699,19 +704,18 @@ def merge_fast(self,new_bc,parent=None):
         parent_name = None  #an error will be thrown if we treat as a string
     if overlap_flag and mode != 'replace':
         double_keys = self.lower_keys.intersection(new_bc.lower_keys)
-        for dup_key in double_keys:
+        for dup_key in sorted(double_keys):
               our_parent = self.child_table[dup_key].parent
               their_parent = new_bc.child_table[dup_key].parent
+              start_key = dup_key      #a new key must be unused everywhere
+              while start_key in self.lower_keys or start_key in new_bc.lower_keys:
+                  start_key = start_key+'+'
               if (our_parent is None and their_parent is not None and parent is None) or\
                   parent is not None:  #rename our block
-                start_key = dup_key
-                while start_key in self.lower_keys: start_key = start_key+'+'
                 self._rekey(dup_key,start_key)
-                if parent_name.lower() == dup_key:  #we just renamed the prospective parent!
+                if parent_name is not None and parent_name.lower() == dup_key:  #we just renamed the prospective parent!
                     parent_name = start_key
-              elif our_parent is not None and their_parent is None and parent is None:
-                start_key = dup_key
-                while start_key in new_bc.lower_keys: start_key = start_key+'+'
+              elif our_parent is not None and (their_parent is None or self.scoping == 'instance') and parent is None:
                 new_bc._rekey(dup_key,start_key)
               else:
                 raise StarError("In strict merge mode:duplicate keys %s" % dup_key)
-- 
2.43.0


From 42620fbe4946eaa8675978a228d5c2460e45011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 017/154] fix: refuse loop values that have no data names

---
 src/YappsStarParser.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 632c163..c1c6346 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -126,6 +126,8 @@ def makeloop(target_block,loopdata):
     loop_seq,itemlists = loopdata
     # print('Making loop with %s' % repr(itemlists))
     step_size = len(loop_seq)
+    if step_size == 0:
+        raise ValueError('Loop values are not preceded by any data name')
     for col_no in range(step_size):
        target_block.AddItem(loop_seq[col_no], itemlists[col_no::step_size],precheck=True)
     # now construct the loop
-- 
2.43.0


From bf28f44baeff6c61ee68ea6b4573263d710a8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 018/154] fix: loop_ is a reserved word, never an undelimited
 value

---
 src/YappsStarParser.nw | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index c1c6346..2d8e812 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -212,7 +212,7 @@ removed when PyCIFRW is ported to Python 3.
 <<Regular expressions STAR2>>=
 <<STAR2-CIF2 common regular expressions block 1>>
 <<STAR2-CIF2 common regular expressions block 2>>
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$',_\{\}\[\]][^\s,\{\}\[\]]*)"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?![^\s,\{\}\[\]]))))[^\s\"#$',_\{\}\[\]][^\s,\{\}\[\]]*)"
 
 <<STAR2-CIF2 common regular expressions block 1>>=
 # first handle whitespace and comments, keeping whitespace
@@ -252,7 +252,7 @@ token END: '$'
 
 <<Regular expressions CIF2>>=
 <<STAR2-CIF2 common regular expressions block 1>>
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_\{\}\[\]][^\s\{\}\[\]]*)"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?![^\s\{\}\[\]]))))[^\s\"#$'_\{\}\[\]][^\s\{\}\[\]]*)"
 <<STAR2-CIF2 common regular expressions block 2>>
 
 @ CIF 1.1 does not allow unquoted data values to begin with a bracket character, but does not have bracket expressions
@@ -274,7 +274,7 @@ token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
 token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_\{\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?![^\s]))))[^\s\"#$'_\{\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
 
 @ The original CIF specification allowed brackets to begin data values, even if not quoted.  That is the only difference.
@@ -295,7 +295,7 @@ token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
 token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)))[^\s\"#$'_][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?![^\s]))))[^\s\"#$'_][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
 
 @
-- 
2.43.0


From b9462b92e08053def367c8b54f3779f306efdefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 019/154] fix: no entry of a STAR2 table is dropped when a
 comma is missing

---
 src/YappsStarParser.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 2d8e812..20f7fde 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -440,7 +440,7 @@ whereas CIF2 has space-separated elements.
                                c_s_b                     {{return StarList(this_list)}}
 
      rule curly_bracket_expr: ( o_c_b                     {{table_as_list = []}}
-                             ( delimited_data_value       {{table_as_list = [delimited_data_value]}}
+                             ( delimited_data_value       {{table_as_list.append(delimited_data_value)}}
                               ":"
                               data_value                 {{table_as_list.append(data_value)}}
                             ( ","
-- 
2.43.0


From 4ae5a1e76b971c764053418f1959c76928129f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 020/154] fix: CR and CR-LF line ends are equivalent to LF when
 reading

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index f8d55e6..e02fd79 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1107,6 +1107,8 @@ def ReadStar(filename,prepared = None, maxlength=-1,
     endoffile = text.find(chr(26))
     if endoffile >= 0:
         text = text[:endoffile]
+    # every line-end convention is equivalent to a newline
+    text = text.replace('\r\n','\n').replace('\r','\n')
     split = text.split('\n')
     if maxlength > 0:
         toolong = [a for a in split if len(a)>maxlength]
-- 
2.43.0


From f8e061126078bd0318ef75a8ad3f1672cb960d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 021/154] fix: CIF2 quoted text ends at its first closing quote

---
 src/YappsStarParser.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 20f7fde..26b0ac6 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -241,7 +241,7 @@ token dat_val_internal_sq: "\[([^\s\[\]]*)\]"
 # This token for triple-quote delimited strings must come before single-quote delimited strings to avoid the opening quotes being
 # interpreted as a single-quote delimited string
 token triple_quote_data_value: "(?s)'''.*?'''|\"\"\".*?\"\"\""
-token single_quote_data_value: "'([^\n\r\f'])*'+|\"([^\n\r\"])*\"+"
+token single_quote_data_value: "'([^\n\r\f'])*'|\"([^\n\r\"])*\""
 
 @ Currently just a single line but we allow a whole block just in case.
 
-- 
2.43.0


From 95c9203ee0946bbd49be29296e37a16a93be42ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 022/154] fix: loop_ must be followed by white space

---
 src/YappsStarParser.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 26b0ac6..0ccb4c9 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -220,7 +220,7 @@ token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|
 ignore: "([ \t\n\r](?!;))|[ \t]"
 ignore: "(#.*[\n\r](?!;))|(#.*)"
 # now the tokens
-token LBLOCK:  "(L|l)(O|o)(O|o)(P|p)_"        # loop_
+token LBLOCK:  "(L|l)(O|o)(O|o)(P|p)_(?!\S)"        # loop_
 token GLOBAL: "(G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_"
 token STOP: "(S|s)(T|t)(O|o)(P|p)_"
 token save_heading: u"(S|s)(A|a)(V|v)(E|e)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_\u00A0-\uD7FF\uE000-\uFDCF\uFDF0-\uFFFD\U00010000-\U0001FFFD\U00020000-\U0002FFFD\U00030000-\U0003FFFD\U00040000-\U0004FFFD\U00050000-\U0005FFFD\U00060000-\U0006FFFD\U00070000-\U0007FFFD\U00080000-\U0008FFFD\U00090000-\U0009FFFD\U000A0000-\U000AFFFD\U000B0000-\U000BFFFD\U000C0000-\U000CFFFD\U000D0000-\U000DFFFD\U000E0000-\U000EFFFD\U000F0000-\U000FFFFD\U00100000-\U0010FFFD-]+"
@@ -264,7 +264,7 @@ as such.
 ignore: "([ \t\n\r](?!;))|[ \t]"
 ignore: "(#.*[\n\r](?!;))|(#.*)"
 # now the tokens
-token LBLOCK:  "(L|l)(O|o)(O|o)(P|p)_"        # loop_
+token LBLOCK:  "(L|l)(O|o)(O|o)(P|p)_(?!\S)"        # loop_
 token GLOBAL: "(G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_"
 token STOP: "(S|s)(T|t)(O|o)(P|p)_"
 token save_heading: "(S|s)(A|a)(V|v)(E|e)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+"
@@ -285,7 +285,7 @@ token END: '$'
 ignore: "([ \t\n\r](?!;))|[ \t]"
 ignore: "(#.*[\n\r](?!;))|(#.*)"
 # now the tokens
-token LBLOCK:  "(L|l)(O|o)(O|o)(P|p)_"        # loop_
+token LBLOCK:  "(L|l)(O|o)(O|o)(P|p)_(?!\S)"        # loop_
 token GLOBAL: "(G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_"
 token STOP: "(S|s)(T|t)(O|o)(P|p)_"
 token save_heading: "(S|s)(A|a)(V|v)(E|e)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}\|~\"#$';_-]+"
-- 
2.43.0


From 33c70e061373d5c3a149fd51e6fbb9eb629c533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 023/154] fix: CIF 1.1 undelimited values may start with a
 curly bracket

---
 src/YappsStarParser.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 0ccb4c9..b3e0960 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -274,7 +274,7 @@ token data_heading: "(D|d)(A|a)(T|t)(A|a)_[][!%&\(\)*+,./:<=>?@0-9A-Za-z\\\\^`{}
 token start_sc_line: "(\n|\r\n);([^\n\r])*(\r\n|\r|\n)+"
 token sc_line_of_text: "[^;\r\n]([^\r\n])*(\r\n|\r|\n)+"
 token end_sc_line: ";"
-token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?![^\s]))))[^\s\"#$'_\{\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
+token data_value_1: "((?!(((S|s)(A|a)(V|v)(E|e)_[^\s]*)|((G|g)(L|l)(O|o)(B|b)(A|a)(L|l)_[^\s]*)|((S|s)(T|t)(O|o)(P|p)_[^\s]*)|((D|d)(A|a)(T|t)(A|a)_[^\s]*)|((L|l)(O|o)(O|o)(P|p)_(?![^\s]))))[^\s\"#$'_\[\]][^\s]*)|'(('(?=\S))|([^\n\r\f']))*'+|\"((\"(?=\S))|([^\n\r\"]))*\"+"
 token END: '$'
 
 @ The original CIF specification allowed brackets to begin data values, even if not quoted.  That is the only difference.
-- 
2.43.0


From 3054e5a1bc649cb5471db5d82b8f387942e67c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 024/154] fix: the compiled scanner accepts the same input as
 the interpreted one

---
 src/StarFile.nw           |   2 +-
 src/lib/lex.yy.c          | 707 +++++++++++++++++++-------------------
 src/lib/py_star_scan.c    |  13 +-
 src/lib/star.l            |  28 +-
 src/lib/star_scanner.h    |   2 +
 src/yapps3_compiled_rt.py |   4 +-
 6 files changed, 397 insertions(+), 359 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e02fd79..a2b1f90 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1124,7 +1124,7 @@ def ReadStar(filename,prepared = None, maxlength=-1,
        if scantype == 'standard' or grammar_name in ['2.0','STAR2']:
             parser = Y.StarParser(Y.StarParserScanner(text))
        else:
-            parser = Y.StarParser(Y.yappsrt.Scanner(None,[],text,scantype='flex'))
+            parser = Y.StarParser(Y.yappsrt.Scanner(None,[],text,scantype='flex',brackets=(grammar_name=='1.0')))
        # handle encoding switch
        if grammar_name in ['2.0','STAR2']:
            prepared.set_characterset('unicode')
diff --git a/src/lib/lex.yy.c b/src/lib/lex.yy.c
index e97b1e9..c9526ce 100644
--- a/src/lib/lex.yy.c
+++ b/src/lib/lex.yy.c
@@ -7,8 +7,8 @@
 
 #define FLEX_SCANNER
 #define YY_FLEX_MAJOR_VERSION 2
-#define YY_FLEX_MINOR_VERSION 5
-#define YY_FLEX_SUBMINOR_VERSION 39
+#define YY_FLEX_MINOR_VERSION 6
+#define YY_FLEX_SUBMINOR_VERSION 4
 #if YY_FLEX_SUBMINOR_VERSION > 0
 #define FLEX_BETA
 #endif
@@ -21,14 +21,6 @@
 #include <errno.h>
 #include <stdlib.h>
 
-// Linux and Mac
-#if defined (__unix__) || (defined (__APPLE__) && defined (__MACH__))
-
-#include <unistd.h>
-
-#endif
-
-
 /* end standard C headers. */
 
 /* flex integer type definitions */
@@ -91,60 +83,48 @@ typedef unsigned int flex_uint32_t;
 #define UINT32_MAX             (4294967295U)
 #endif
 
+#ifndef SIZE_MAX
+#define SIZE_MAX               (~(size_t)0)
+#endif
+
 #endif /* ! C99 */
 
 #endif /* ! FLEXINT_H */
 
-#ifdef __cplusplus
-
-/* The "const" storage-class-modifier is valid. */
-#define YY_USE_CONST
-
-#else	/* ! __cplusplus */
-
-/* C99 requires __STDC__ to be defined as 1. */
-#if defined (__STDC__)
+/* begin standard C++ headers. */
 
-#define YY_USE_CONST
-
-#endif	/* defined (__STDC__) */
-#endif	/* ! __cplusplus */
-
-#ifdef YY_USE_CONST
+/* TODO: this is always defined, so inline it */
 #define yyconst const
+
+#if defined(__GNUC__) && __GNUC__ >= 3
+#define yynoreturn __attribute__((__noreturn__))
 #else
-#define yyconst
+#define yynoreturn
 #endif
 
 /* Returned upon end-of-file. */
 #define YY_NULL 0
 
-/* Promotes a possibly negative, possibly signed char to an unsigned
- * integer for use as an array index.  If the signed char is negative,
- * we want to instead treat it as an 8-bit unsigned char, hence the
- * double cast.
+/* Promotes a possibly negative, possibly signed char to an
+ *   integer in range [0..255] for use as an array index.
  */
-#define YY_SC_TO_UI(c) ((unsigned int) (unsigned char) c)
+#define YY_SC_TO_UI(c) ((YY_CHAR) (c))
 
 /* Enter a start condition.  This macro really ought to take a parameter,
  * but we do it the disgusting crufty way forced on us by the ()-less
  * definition of BEGIN.
  */
 #define BEGIN (yy_start) = 1 + 2 *
-
 /* Translate the current start state into a value that can be later handed
  * to BEGIN to return to the state.  The YYSTATE alias is for lex
  * compatibility.
  */
 #define YY_START (((yy_start) - 1) / 2)
 #define YYSTATE YY_START
-
 /* Action number for EOF rule of a given start state. */
 #define YY_STATE_EOF(state) (YY_END_OF_BUFFER + state + 1)
-
 /* Special action meaning "start processing a new file". */
-#define YY_NEW_FILE yyrestart(yyin  )
-
+#define YY_NEW_FILE yyrestart( yyin  )
 #define YY_END_OF_BUFFER_CHAR 0
 
 /* Size of default input buffer. */
@@ -174,17 +154,17 @@ typedef struct yy_buffer_state *YY_BUFFER_STATE;
 typedef size_t yy_size_t;
 #endif
 
-extern yy_size_t yyleng;
+extern int yyleng;
 
 extern FILE *yyin, *yyout;
 
 #define EOB_ACT_CONTINUE_SCAN 0
 #define EOB_ACT_END_OF_FILE 1
 #define EOB_ACT_LAST_MATCH 2
-
+    
     /* Note: We specifically omit the test for yy_rule_can_match_eol because it requires
      *       access to the local variable yy_act. Since yyless() is a macro, it would break
-     *       existing scanners that call yyless() from OUTSIDE yylex. 
+     *       existing scanners that call yyless() from OUTSIDE yylex.
      *       One obvious solution it to make yy_act a global. I tried that, and saw
      *       a 5% performance hit in a non-yylineno scanner, because yy_act is
      *       normally declared as a register variable-- so it is not worth it.
@@ -217,7 +197,6 @@ extern FILE *yyin, *yyout;
 		YY_DO_BEFORE_ACTION; /* set up yytext again */ \
 		} \
 	while ( 0 )
-
 #define unput(c) yyunput( c, (yytext_ptr)  )
 
 #ifndef YY_STRUCT_YY_BUFFER_STATE
@@ -232,12 +211,12 @@ struct yy_buffer_state
 	/* Size of input buffer in bytes, not including room for EOB
 	 * characters.
 	 */
-	yy_size_t yy_buf_size;
+	int yy_buf_size;
 
 	/* Number of characters read into yy_ch_buf, not including EOB
 	 * characters.
 	 */
-	yy_size_t yy_n_chars;
+	int yy_n_chars;
 
 	/* Whether we "own" the buffer - i.e., we know we created it,
 	 * and can realloc() it to grow it, and should free() it to
@@ -260,7 +239,7 @@ struct yy_buffer_state
 
     int yy_bs_lineno; /**< The line count. */
     int yy_bs_column; /**< The column count. */
-    
+
 	/* Whether to try to fill the input buffer when we reach the
 	 * end of it.
 	 */
@@ -288,7 +267,7 @@ struct yy_buffer_state
 /* Stack of input buffers. */
 static size_t yy_buffer_stack_top = 0; /**< index of top of stack. */
 static size_t yy_buffer_stack_max = 0; /**< capacity of stack. */
-static YY_BUFFER_STATE * yy_buffer_stack = 0; /**< Stack as an array. */
+static YY_BUFFER_STATE * yy_buffer_stack = NULL; /**< Stack as an array. */
 
 /* We provide macros for accessing buffer states in case in the
  * future we want to put the buffer states in a more general
@@ -299,7 +278,6 @@ static YY_BUFFER_STATE * yy_buffer_stack = 0; /**< Stack as an array. */
 #define YY_CURRENT_BUFFER ( (yy_buffer_stack) \
                           ? (yy_buffer_stack)[(yy_buffer_stack_top)] \
                           : NULL)
-
 /* Same as previous macro, but useful when we know that the buffer stack is not
  * NULL or when we need an lvalue. For internal use only.
  */
@@ -307,11 +285,11 @@ static YY_BUFFER_STATE * yy_buffer_stack = 0; /**< Stack as an array. */
 
 /* yy_hold_char holds the character lost when yytext is formed. */
 static char yy_hold_char;
-static yy_size_t yy_n_chars;		/* number of characters read into yy_ch_buf */
-yy_size_t yyleng;
+static int yy_n_chars;		/* number of characters read into yy_ch_buf */
+int yyleng;
 
 /* Points to current character in buffer. */
-static char *yy_c_buf_p = (char *) 0;
+static char *yy_c_buf_p = NULL;
 static int yy_init = 0;		/* whether we need to initialize */
 static int yy_start = 0;	/* start state number */
 
@@ -320,87 +298,83 @@ static int yy_start = 0;	/* start state number */
  */
 static int yy_did_buffer_switch_on_eof;
 
-void yyrestart (FILE *input_file  );
-void yy_switch_to_buffer (YY_BUFFER_STATE new_buffer  );
-YY_BUFFER_STATE yy_create_buffer (FILE *file,int size  );
-void yy_delete_buffer (YY_BUFFER_STATE b  );
-void yy_flush_buffer (YY_BUFFER_STATE b  );
-void yypush_buffer_state (YY_BUFFER_STATE new_buffer  );
-void yypop_buffer_state (void );
+void yyrestart ( FILE *input_file  );
+void yy_switch_to_buffer ( YY_BUFFER_STATE new_buffer  );
+YY_BUFFER_STATE yy_create_buffer ( FILE *file, int size  );
+void yy_delete_buffer ( YY_BUFFER_STATE b  );
+void yy_flush_buffer ( YY_BUFFER_STATE b  );
+void yypush_buffer_state ( YY_BUFFER_STATE new_buffer  );
+void yypop_buffer_state ( void );
 
-static void yyensure_buffer_stack (void );
-static void yy_load_buffer_state (void );
-static void yy_init_buffer (YY_BUFFER_STATE b,FILE *file  );
+static void yyensure_buffer_stack ( void );
+static void yy_load_buffer_state ( void );
+static void yy_init_buffer ( YY_BUFFER_STATE b, FILE *file  );
+#define YY_FLUSH_BUFFER yy_flush_buffer( YY_CURRENT_BUFFER )
 
-#define YY_FLUSH_BUFFER yy_flush_buffer(YY_CURRENT_BUFFER )
+YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size  );
+YY_BUFFER_STATE yy_scan_string ( const char *yy_str  );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len  );
 
-YY_BUFFER_STATE yy_scan_buffer (char *base,yy_size_t size  );
-YY_BUFFER_STATE yy_scan_string (yyconst char *yy_str  );
-YY_BUFFER_STATE yy_scan_bytes (yyconst char *bytes,yy_size_t len  );
-
-void *yyalloc (yy_size_t  );
-void *yyrealloc (void *,yy_size_t  );
-void yyfree (void *  );
+void *yyalloc ( yy_size_t  );
+void *yyrealloc ( void *, yy_size_t  );
+void yyfree ( void *  );
 
 #define yy_new_buffer yy_create_buffer
-
 #define yy_set_interactive(is_interactive) \
 	{ \
 	if ( ! YY_CURRENT_BUFFER ){ \
         yyensure_buffer_stack (); \
 		YY_CURRENT_BUFFER_LVALUE =    \
-            yy_create_buffer(yyin,YY_BUF_SIZE ); \
+            yy_create_buffer( yyin, YY_BUF_SIZE ); \
 	} \
 	YY_CURRENT_BUFFER_LVALUE->yy_is_interactive = is_interactive; \
 	}
-
 #define yy_set_bol(at_bol) \
 	{ \
 	if ( ! YY_CURRENT_BUFFER ){\
         yyensure_buffer_stack (); \
 		YY_CURRENT_BUFFER_LVALUE =    \
-            yy_create_buffer(yyin,YY_BUF_SIZE ); \
+            yy_create_buffer( yyin, YY_BUF_SIZE ); \
 	} \
 	YY_CURRENT_BUFFER_LVALUE->yy_at_bol = at_bol; \
 	}
-
 #define YY_AT_BOL() (YY_CURRENT_BUFFER_LVALUE->yy_at_bol)
 
 /* Begin user sect3 */
 
-#define yywrap() 1
+#define yywrap() (/*CONSTCOND*/1)
 #define YY_SKIP_YYWRAP
+typedef flex_uint8_t YY_CHAR;
 
-typedef unsigned char YY_CHAR;
-
-FILE *yyin = (FILE *) 0, *yyout = (FILE *) 0;
+FILE *yyin = NULL, *yyout = NULL;
 
 typedef int yy_state_type;
 
 extern int yylineno;
-
 int yylineno = 1;
 
 extern char *yytext;
+#ifdef yytext_ptr
+#undef yytext_ptr
+#endif
 #define yytext_ptr yytext
 
-static yy_state_type yy_get_previous_state (void );
-static yy_state_type yy_try_NUL_trans (yy_state_type current_state  );
-static int yy_get_next_buffer (void );
-static void yy_fatal_error (yyconst char msg[]  );
+static yy_state_type yy_get_previous_state ( void );
+static yy_state_type yy_try_NUL_trans ( yy_state_type current_state  );
+static int yy_get_next_buffer ( void );
+static void yynoreturn yy_fatal_error ( const char* msg  );
 
 /* Done after the current pattern has been matched and before the
  * corresponding action - sets up yytext.
  */
 #define YY_DO_BEFORE_ACTION \
 	(yytext_ptr) = yy_bp; \
-	yyleng = (size_t) (yy_cp - yy_bp); \
+	yyleng = (int) (yy_cp - yy_bp); \
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-
-#define YY_NUM_RULES 20
-#define YY_END_OF_BUFFER 21
+#define YY_NUM_RULES 23
+#define YY_END_OF_BUFFER 24
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -408,34 +382,34 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static yyconst flex_int16_t yy_accept[72] =
+static const flex_int16_t yy_accept[76] =
     {   0,
-        8,    8,    0,    0,   21,   14,    8,   18,   19,   19,
-        9,   19,   19,   14,   14,   14,   14,   19,   17,   20,
-       20,   13,   14,    8,    0,    0,    0,   10,    0,   10,
-        0,   16,    9,    0,   15,   14,   14,   14,   14,   14,
-        7,    0,   12,   12,   10,    0,    0,   11,   11,   14,
-       14,   14,   14,   14,   12,   11,   14,   14,   14,   14,
-       14,   14,   14,    1,    5,    3,    6,   14,    4,    2,
-        0
+        9,    9,    0,    0,   24,   16,    9,   21,   22,   22,
+       22,   10,   22,   16,   16,   16,   16,   17,   22,   20,
+       23,   23,   15,   16,    9,    0,    0,    0,   11,   13,
+       11,   13,    0,   19,   10,    0,   18,   16,   16,   16,
+       16,   16,   17,    7,    0,   14,   14,   11,    0,    0,
+       12,   12,   16,   16,   16,   16,   16,   14,   12,   16,
+       16,   16,   16,   16,    8,   16,    1,    5,    3,    8,
+        6,   16,    4,    2,    0
     } ;
 
-static yyconst flex_int32_t yy_ec[256] =
+static const YY_CHAR yy_ec[256] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
-        1,    1,    4,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    2,    5,    6,    7,    8,    5,    5,    9,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,   10,    5,
-        5,    5,    5,    5,   11,   12,    5,   13,   14,    5,
-       15,    5,    5,    5,    5,   16,    5,    5,   17,   18,
-        5,    5,   19,   20,    5,   21,    5,    5,    5,    5,
-        8,    5,    8,    5,   22,    5,   11,   12,    5,   13,
-
-       14,    5,   15,    5,    5,    5,    5,   16,    5,    5,
-       17,   18,    5,    5,   19,   20,    5,   21,    5,    5,
-        5,    5,    5,    5,    5,    5,    1,    1,    1,    1,
+        4,    4,    5,    1,    1,    1,    1,    1,    1,    1,
+        1,    1,    1,    1,    1,    1,    1,    4,    4,    4,
+        4,    2,    6,    7,    8,    9,    6,    6,   10,    6,
+        6,    6,    6,    6,    6,    6,    6,    6,    6,    6,
+        6,    6,    6,    6,    6,    6,    6,    6,   11,    6,
+        6,    6,    6,    6,   12,   13,    6,   14,   15,    6,
+       16,    6,    6,    6,    6,   17,    6,    6,   18,   19,
+        6,    6,   20,   21,    6,   22,    6,    6,    6,    6,
+       23,    6,   23,    6,   24,    6,   12,   13,    6,   14,
+
+       15,    6,   16,    6,    6,    6,    6,   17,    6,    6,
+       18,   19,    6,    6,   20,   21,    6,   22,    6,    6,
+        6,    6,    6,    6,    6,    6,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -452,86 +426,90 @@ static yyconst flex_int32_t yy_ec[256] =
         1,    1,    1,    1,    1
     } ;
 
-static yyconst flex_int32_t yy_meta[24] =
+static const YY_CHAR yy_meta[26] =
     {   0,
-        1,    2,    3,    3,    4,    4,    4,    4,    4,    4,
+        1,    2,    3,    2,    3,    4,    4,    4,    4,    4,
         4,    4,    4,    4,    4,    4,    4,    4,    4,    4,
-        4,    4,    1
+        4,    4,    4,    4,    5
     } ;
 
-static yyconst flex_int16_t yy_base[84] =
+static const flex_int16_t yy_base[90] =
     {   0,
-        0,    0,   21,   23,  128,    0,   32,  117,   27,  120,
-       25,  129,  116,  113,  107,  105,   21,    0,  129,   39,
-      129,  129,    0,    0,  111,   35,   43,  129,   45,  110,
-      113,  112,   47,  108,  107,   95,   97,   96,   91,   94,
-        0,   49,   51,   53,  100,   55,   57,   59,   61,   98,
-       96,   89,   92,   87,   63,   65,   82,   92,   80,   79,
-       78,    0,   83,    0,    0,    0,    0,   76,    0,    0,
-      129,   69,   82,   73,   76,   80,   83,   75,   86,   90,
-       93,   40,   36
+        0,    0,   23,   24,  149,    0,   34,  137,  150,   27,
+      140,   28,  136,  133,  127,  125,   20,    0,    0,  150,
+       40,  150,  150,    0,    0,  131,   37,   41,  150,   44,
+      130,  150,  133,  132,   47,  128,  127,  115,  117,  116,
+      111,  114,    0,    0,   48,   51,   52,  120,   55,   56,
+       59,   60,  118,  116,  109,  112,  107,   63,   64,  100,
+      111,   96,   95,   92,  114,   82,    0,   97,    0,    0,
+       94,   62,   76,    0,  150,   69,   74,   78,   83,   87,
+       92,   96,   72,  100,  104,  109,  113,  117,  121
     } ;
 
-static yyconst flex_int16_t yy_def[84] =
+static const flex_int16_t yy_def[90] =
     {   0,
-       71,    1,   72,   72,   71,   73,   71,   74,   74,   75,
-       76,   71,   77,   73,   73,   73,   73,   78,   71,   79,
-       71,   71,   73,    7,   74,   74,   80,   71,   81,   74,
-       75,   75,   76,   77,   77,   73,   73,   73,   73,   73,
-       78,   79,   71,   71,   74,   80,   81,   71,   71,   73,
-       73,   73,   73,   73,   71,   71,   73,   73,   73,   73,
-       73,   82,   73,   73,   83,   73,   82,   73,   83,   73,
-        0,   71,   71,   71,   71,   71,   71,   71,   71,   71,
-       71,   71,   71
+       75,    1,   76,   76,   75,   77,   75,   78,   75,   78,
+       79,   80,   81,   77,   77,   77,   77,   82,   83,   75,
+       84,   75,   75,   77,    7,   78,   78,   85,   75,   86,
+       78,   75,   79,   79,   80,   81,   81,   77,   77,   77,
+       77,   77,   82,   83,   84,   75,   75,   78,   85,   86,
+       75,   75,   77,   77,   77,   77,   77,   75,   75,   77,
+       77,   77,   77,   77,   87,   77,   77,   88,   89,   89,
+       87,   77,   88,   89,    0,   75,   75,   75,   75,   75,
+       75,   75,   75,   75,   75,   75,   75,   75,   75
     } ;
 
-static yyconst flex_int16_t yy_nxt[153] =
+static const flex_int16_t yy_nxt[176] =
     {   0,
-        6,    7,    8,    9,    6,   10,   11,   12,   13,    6,
-        6,    6,   14,    6,   15,   16,    6,    6,   17,    6,
-        6,   18,   19,   21,   21,   21,   21,   25,   26,   30,
-       22,   39,   22,   24,   25,   26,   71,   45,   27,   69,
-       40,   43,   44,   67,   71,   25,   26,   48,   49,   25,
-       26,   43,   44,   43,   44,   55,   44,   25,   26,   48,
-       49,   48,   49,   56,   49,   43,   44,   48,   49,   20,
-       20,   20,   20,   28,   28,   28,   28,   31,   41,   31,
-       33,   33,   33,   33,   34,   23,   34,   42,   42,   42,
-       46,   46,   46,   46,   47,   47,   47,   70,   68,   66,
-
-       65,   64,   63,   62,   61,   60,   59,   58,   57,   71,
-       54,   53,   52,   51,   50,   35,   35,   32,   32,   29,
-       71,   38,   37,   36,   35,   32,   29,   71,    5,   71,
-       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
-       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
-       71,   71
+        6,    7,    8,    9,   10,    6,   11,   12,    9,   13,
+        6,    6,    6,   14,    6,   15,   16,    6,    6,   17,
+        6,    6,   18,   19,   20,   22,   22,   22,   22,   31,
+       26,   41,   27,   23,   23,   25,   26,   32,   27,   48,
+       42,   28,   46,   26,   47,   27,   51,   75,   52,   26,
+       46,   27,   47,   46,   58,   47,   47,   26,   51,   27,
+       52,   51,   59,   52,   52,   46,   51,   47,   52,   21,
+       21,   21,   21,   21,   24,   44,   70,   24,   29,   29,
+       29,   29,   29,   33,   33,   74,   33,   35,   35,   35,
+       35,   35,   36,   36,   70,   36,   43,   70,   72,   43,
+
+       45,   45,   45,   45,   49,   49,   49,   49,   49,   50,
+       50,   50,   50,   71,   70,   69,   71,   73,   68,   67,
+       73,   70,   66,   65,   70,   64,   63,   62,   61,   60,
+       75,   57,   56,   55,   54,   53,   37,   37,   34,   34,
+       30,   75,   40,   39,   38,   37,   34,   30,   75,    5,
+       75,   75,   75,   75,   75,   75,   75,   75,   75,   75,
+       75,   75,   75,   75,   75,   75,   75,   75,   75,   75,
+       75,   75,   75,   75,   75
     } ;
 
-static yyconst flex_int16_t yy_chk[153] =
+static const flex_int16_t yy_chk[176] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    3,    3,    4,    4,   11,   11,    9,
-        3,   17,    4,    7,    7,    7,    9,   26,    7,   83,
-       17,   20,   20,   82,   26,   27,   27,   29,   29,   33,
-       33,   42,   42,   43,   43,   44,   44,   46,   46,   47,
-       47,   48,   48,   49,   49,   55,   55,   56,   56,   72,
-       72,   72,   72,   74,   74,   74,   74,   75,   78,   75,
-       76,   76,   76,   76,   77,   73,   77,   79,   79,   79,
-       80,   80,   80,   80,   81,   81,   81,   68,   63,   61,
-
-       60,   59,   58,   57,   54,   53,   52,   51,   50,   45,
-       40,   39,   38,   37,   36,   35,   34,   32,   31,   30,
-       25,   16,   15,   14,   13,   10,    8,    5,   71,   71,
-       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
-       71,   71,   71,   71,   71,   71,   71,   71,   71,   71,
-       71,   71
+        1,    1,    1,    1,    1,    3,    4,    3,    4,   10,
+       12,   17,   12,    3,    4,    7,    7,   10,    7,   27,
+       17,    7,   21,   28,   21,   28,   30,   27,   30,   35,
+       45,   35,   45,   46,   47,   46,   47,   49,   50,   49,
+       50,   51,   52,   51,   52,   58,   59,   58,   59,   76,
+       76,   76,   76,   76,   77,   83,   73,   77,   78,   78,
+       78,   78,   78,   79,   79,   72,   79,   80,   80,   80,
+       80,   80,   81,   81,   71,   81,   82,   68,   66,   82,
+
+       84,   84,   84,   84,   85,   85,   85,   85,   85,   86,
+       86,   86,   86,   87,   65,   64,   87,   88,   63,   62,
+       88,   89,   61,   60,   89,   57,   56,   55,   54,   53,
+       48,   42,   41,   40,   39,   38,   37,   36,   34,   33,
+       31,   26,   16,   15,   14,   13,   11,    8,    5,   75,
+       75,   75,   75,   75,   75,   75,   75,   75,   75,   75,
+       75,   75,   75,   75,   75,   75,   75,   75,   75,   75,
+       75,   75,   75,   75,   75
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static yyconst flex_int32_t yy_rule_can_match_eol[21] =
+static const flex_int32_t yy_rule_can_match_eol[24] =
     {   0,
-0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 1, 0, 
-    0,     };
+0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 0, 0, 0, 0, 0, 
+    0, 1, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -573,21 +551,22 @@ Match for EOL at EOF contributed by Boris Dusek
 {\
 if(string_pos == in_string_len) result = YY_NULL;\
 if(string_pos + max_size <= in_string_len) {\
-    strncpy(buf,input_string+string_pos,max_size);\
+    memcpy(buf,input_string+string_pos,max_size);\
     string_pos +=max_size;\
     result =max_size;\
     } else {\
-    strncpy(buf,input_string+string_pos,in_string_len - string_pos);\
+    memcpy(buf,input_string+string_pos,in_string_len - string_pos);\
     result = in_string_len - string_pos;\
     string_pos = in_string_len;\
     }\
 }
 
+#line 565 "lex.yy.c"
 /* These have been modified from starbase, as they allow all sorts of
    forbidden characters */
 
 /* Lex Rules fo a STAR File */
-#line 583 "lex.yy.c"
+#line 570 "lex.yy.c"
 
 #define INITIAL 0
 #define Alltext 1
@@ -596,36 +575,36 @@ if(string_pos + max_size <= in_string_len) {\
 #define YY_EXTRA_TYPE void *
 #endif
 
-static int yy_init_globals (void );
+static int yy_init_globals ( void );
 
 /* Accessor methods to globals.
    These are made visible to non-reentrant scanners for convenience. */
 
-int yylex_destroy (void );
+int yylex_destroy ( void );
 
-int yyget_debug (void );
+int yyget_debug ( void );
 
-void yyset_debug (int debug_flag  );
+void yyset_debug ( int debug_flag  );
 
-YY_EXTRA_TYPE yyget_extra (void );
+YY_EXTRA_TYPE yyget_extra ( void );
 
-void yyset_extra (YY_EXTRA_TYPE user_defined  );
+void yyset_extra ( YY_EXTRA_TYPE user_defined  );
 
-FILE *yyget_in (void );
+FILE *yyget_in ( void );
 
-void yyset_in  (FILE * in_str  );
+void yyset_in  ( FILE * _in_str  );
 
-FILE *yyget_out (void );
+FILE *yyget_out ( void );
 
-void yyset_out  (FILE * out_str  );
+void yyset_out  ( FILE * _out_str  );
 
-yy_size_t yyget_leng (void );
+			int yyget_leng ( void );
 
-char *yyget_text (void );
+char *yyget_text ( void );
 
-int yyget_lineno (void );
+int yyget_lineno ( void );
 
-void yyset_lineno (int line_number  );
+void yyset_lineno ( int _line_number  );
 
 /* Macros after this point can all be overridden by user definitions in
  * section 1.
@@ -633,28 +612,31 @@ void yyset_lineno (int line_number  );
 
 #ifndef YY_SKIP_YYWRAP
 #ifdef __cplusplus
-extern "C" int yywrap (void );
+extern "C" int yywrap ( void );
 #else
-extern int yywrap (void );
+extern int yywrap ( void );
 #endif
 #endif
 
-    static void yyunput (int c,char *buf_ptr  );
+#ifndef YY_NO_UNPUT
+    
+    static void yyunput ( int c, char *buf_ptr  );
     
+#endif
+
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char *,yyconst char *,int );
+static void yy_flex_strncpy ( char *, const char *, int );
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * );
+static int yy_flex_strlen ( const char * );
 #endif
 
 #ifndef YY_NO_INPUT
-
 #ifdef __cplusplus
-static int yyinput (void );
+static int yyinput ( void );
 #else
-static int input (void );
+static int input ( void );
 #endif
 
 #endif
@@ -674,7 +656,7 @@ static int input (void );
 /* This used to be an fputs(), but since the string might contain NUL's,
  * we now use fwrite().
  */
-#define ECHO do { if (fwrite( yytext, yyleng, 1, yyout )) {} } while (0)
+#define ECHO do { if (fwrite( yytext, (size_t) yyleng, 1, yyout )) {} } while (0)
 #endif
 
 /* Gets input and stuffs it into "buf".  number of characters read, or YY_NULL,
@@ -685,7 +667,7 @@ static int input (void );
 	if ( YY_CURRENT_BUFFER_LVALUE->yy_is_interactive ) \
 		{ \
 		int c = '*'; \
-		size_t n; \
+		int n; \
 		for ( n = 0; n < max_size && \
 			     (c = getc( yyin )) != EOF && c != '\n'; ++n ) \
 			buf[n] = (char) c; \
@@ -698,7 +680,7 @@ static int input (void );
 	else \
 		{ \
 		errno=0; \
-		while ( (result = fread(buf, 1, max_size, yyin))==0 && ferror(yyin)) \
+		while ( (result = (int) fread(buf, 1, (yy_size_t) max_size, yyin)) == 0 && ferror(yyin)) \
 			{ \
 			if( errno != EINTR) \
 				{ \
@@ -753,7 +735,7 @@ extern int yylex (void);
 
 /* Code executed at the end of each rule. */
 #ifndef YY_BREAK
-#define YY_BREAK break;
+#define YY_BREAK /*LINTED*/break;
 #endif
 
 #define YY_RULE_SETUP \
@@ -763,9 +745,9 @@ extern int yylex (void);
  */
 YY_DECL
 {
-	register yy_state_type yy_current_state;
-	register char *yy_cp, *yy_bp;
-	register int yy_act;
+	yy_state_type yy_current_state;
+	char *yy_cp, *yy_bp;
+	int yy_act;
     
 	if ( !(yy_init) )
 		{
@@ -787,18 +769,18 @@ YY_DECL
 		if ( ! YY_CURRENT_BUFFER ) {
 			yyensure_buffer_stack ();
 			YY_CURRENT_BUFFER_LVALUE =
-				yy_create_buffer(yyin,YY_BUF_SIZE );
+				yy_create_buffer( yyin, YY_BUF_SIZE );
 		}
 
-		yy_load_buffer_state( );
+		yy_load_buffer_state(  );
 		}
 
 	{
-#line 78 "star.l"
+#line 79 "star.l"
 
-#line 792 "lex.yy.c"
+#line 782 "lex.yy.c"
 
-	while ( 1 )		/* loops until end-of-file is reached */
+	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
 		yy_cp = (yy_c_buf_p);
 
@@ -814,7 +796,7 @@ YY_DECL
 yy_match:
 		do
 			{
-			register YY_CHAR yy_c = yy_ec[YY_SC_TO_UI(*yy_cp)] ;
+			YY_CHAR yy_c = yy_ec[YY_SC_TO_UI(*yy_cp)] ;
 			if ( yy_accept[yy_current_state] )
 				{
 				(yy_last_accepting_state) = yy_current_state;
@@ -823,13 +805,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 72 )
-					yy_c = yy_meta[(unsigned int) yy_c];
+				if ( yy_current_state >= 76 )
+					yy_c = yy_meta[yy_c];
 				}
-			yy_current_state = yy_nxt[yy_base[yy_current_state] + (unsigned int) yy_c];
+			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_base[yy_current_state] != 129 );
+		while ( yy_base[yy_current_state] != 150 );
 
 yy_find_action:
 		yy_act = yy_accept[yy_current_state];
@@ -844,10 +826,10 @@ yy_find_action:
 
 		if ( yy_act != YY_END_OF_BUFFER && yy_rule_can_match_eol[yy_act] )
 			{
-			yy_size_t yyl;
+			int yyl;
 			for ( yyl = 0; yyl < yyleng; ++yyl )
 				if ( yytext[yyl] == '\n' )
-					   
+					
     yylineno++;
 ;
 			}
@@ -865,85 +847,111 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 79 "star.l"
+#line 80 "star.l"
 {return(DLBLOCK);}
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 80 "star.l"
+#line 81 "star.l"
 {return(DGLOBAL);}
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 81 "star.l"
+#line 82 "star.l"
 {return(DSTOP);}
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 82 "star.l"
+#line 83 "star.l"
 {return(DSAVE_HEADING);}
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 83 "star.l"
+#line 84 "star.l"
 {return(DSAVE_END);}
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 84 "star.l"
+#line 85 "star.l"
 {return(DDATA_HEADING);}
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 85 "star.l"
+#line 86 "star.l"
 {return(DDATA_NAME);}
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 86 "star.l"
-{/* do nothing */}
+#line 87 "star.l"
+{/* reserved, never a value */
+                        YY_FLUSH_BUFFER;
+                        return(DERROR);
+                        }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 87 "star.l"
+#line 91 "star.l"
 {/* do nothing */}
 	YY_BREAK
 case 10:
-/* rule 10 can match eol */
+YY_RULE_SETUP
+#line 92 "star.l"
+{/* do nothing */}
+	YY_BREAK
+case 11:
+/* rule 11 can match eol */
 *yy_cp = (yy_hold_char); /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 (yy_c_buf_p) = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 88 "star.l"
+#line 93 "star.l"
 {/* do nothing */}
 	YY_BREAK
-case 11:
-/* rule 11 can match eol */
+case 12:
+/* rule 12 can match eol */
 YY_RULE_SETUP
-#line 90 "star.l"
+#line 95 "star.l"
 {BEGIN(Alltext);return(DSTART_SC_LINE);}
 	YY_BREAK
-case 12:
-/* rule 12 can match eol */
+case 13:
+/* rule 13 can match eol */
 YY_RULE_SETUP
-#line 91 "star.l"
+#line 96 "star.l"
+{/* unterminated text */
+                        YY_FLUSH_BUFFER;
+                        return(DERROR);
+                        }
+	YY_BREAK
+case 14:
+/* rule 14 can match eol */
+YY_RULE_SETUP
+#line 100 "star.l"
 {return(DSC_LINE_OF_TEXT);}
 	YY_BREAK
-case 13:
+case 15:
 YY_RULE_SETUP
-#line 92 "star.l"
+#line 101 "star.l"
 {BEGIN(INITIAL);
 					    return(DEND_SC_LINE);}
 	YY_BREAK
-case 14:
+case 16:
 YY_RULE_SETUP
-#line 95 "star.l"
+#line 104 "star.l"
 {return(DDATA_VALUE_1);}
 	YY_BREAK
-case 15:
+case 17:
 YY_RULE_SETUP
-#line 97 "star.l"
+#line 105 "star.l"
+{/* only the original CIF syntax allows these */
+                        if(allow_brackets) return(DDATA_VALUE_1);
+                        YY_FLUSH_BUFFER;
+                        return(DERROR);
+                        }
+	YY_BREAK
+case 18:
+YY_RULE_SETUP
+#line 111 "star.l"
 {/* this code borrowed from star.l in
                  starbase.  We can't write a rule in 
                  flex to accept a quote if the following
@@ -959,7 +967,7 @@ YY_RULE_SETUP
                   * (? == null) or (? == space) => end of string, stop
                   */
                  while ( p = strchr( p, '\''))
-                    if (isspace( *(++p))) {
+                    if (isspace( (unsigned char) *(++p))) {
                        /* (? == space) => push back rest of the input,
                         *                 S_Q_T_S */
                        /* this is to avoid side effects in the macro */
@@ -969,9 +977,9 @@ YY_RULE_SETUP
                  return(DDATA_VALUE_1);
                  }
 	YY_BREAK
-case 16:
+case 19:
 YY_RULE_SETUP
-#line 122 "star.l"
+#line 136 "star.l"
 {/* this code borrowed from star.l in
                  starbase.  We can't write a rule in 
                  flex to accept a quote only if the following
@@ -987,7 +995,7 @@ YY_RULE_SETUP
                   * (? == null) or (? == space) => end of string, stop
                   */
                  while ( p = strchr( p, '\"'))
-                    if (isspace( *(++p))) {
+                    if (isspace( (unsigned char) *(++p))) {
                        /* (? == space) => push back rest of the input,
                         *                 S_Q_T_S */
                        /* this is to avoid side effects in the macro */
@@ -997,20 +1005,20 @@ YY_RULE_SETUP
                  return(DDATA_VALUE_1);
                  }
 	YY_BREAK
-case 17:
+case 20:
 YY_RULE_SETUP
-#line 147 "star.l"
-{YY_FLUSH_BUFFER; return(DEND);}
+#line 161 "star.l"
+{YY_FLUSH_BUFFER; return(DERROR);}
 	YY_BREAK
-case 18:
-/* rule 18 can match eol */
+case 21:
+/* rule 21 can match eol */
 YY_RULE_SETUP
-#line 148 "star.l"
+#line 162 "star.l"
 {/*printf("Stray carriage return...\n");*/}
 	YY_BREAK
-case 19:
+case 22:
 YY_RULE_SETUP
-#line 149 "star.l"
+#line 163 "star.l"
 {
 			/* printf("Unexpected Character\n");*/
 			/* printf("<%d>\n",yytext[0]);*/
@@ -1018,12 +1026,12 @@ YY_RULE_SETUP
                         return(DERROR);
 			}
 	YY_BREAK
-case 20:
+case 23:
 YY_RULE_SETUP
-#line 155 "star.l"
+#line 169 "star.l"
 ECHO;
 	YY_BREAK
-#line 1019 "lex.yy.c"
+#line 1035 "lex.yy.c"
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(Alltext):
 	yyterminate();
@@ -1102,7 +1110,7 @@ case YY_STATE_EOF(Alltext):
 				{
 				(yy_did_buffer_switch_on_eof) = 0;
 
-				if ( yywrap( ) )
+				if ( yywrap(  ) )
 					{
 					/* Note: because we've taken care in
 					 * yy_get_next_buffer() to have set up
@@ -1167,9 +1175,9 @@ case YY_STATE_EOF(Alltext):
  */
 static int yy_get_next_buffer (void)
 {
-    	register char *dest = YY_CURRENT_BUFFER_LVALUE->yy_ch_buf;
-	register char *source = (yytext_ptr);
-	register int number_to_move, i;
+    	char *dest = YY_CURRENT_BUFFER_LVALUE->yy_ch_buf;
+	char *source = (yytext_ptr);
+	int number_to_move, i;
 	int ret_val;
 
 	if ( (yy_c_buf_p) > &YY_CURRENT_BUFFER_LVALUE->yy_ch_buf[(yy_n_chars) + 1] )
@@ -1198,7 +1206,7 @@ static int yy_get_next_buffer (void)
 	/* Try to read more data. */
 
 	/* First move last chars to start of buffer. */
-	number_to_move = (int) ((yy_c_buf_p) - (yytext_ptr)) - 1;
+	number_to_move = (int) ((yy_c_buf_p) - (yytext_ptr) - 1);
 
 	for ( i = 0; i < number_to_move; ++i )
 		*(dest++) = *(source++);
@@ -1211,7 +1219,7 @@ static int yy_get_next_buffer (void)
 
 	else
 		{
-			yy_size_t num_to_read =
+			int num_to_read =
 			YY_CURRENT_BUFFER_LVALUE->yy_buf_size - number_to_move - 1;
 
 		while ( num_to_read <= 0 )
@@ -1225,7 +1233,7 @@ static int yy_get_next_buffer (void)
 
 			if ( b->yy_is_our_buffer )
 				{
-				yy_size_t new_size = b->yy_buf_size * 2;
+				int new_size = b->yy_buf_size * 2;
 
 				if ( new_size <= 0 )
 					b->yy_buf_size += b->yy_buf_size / 8;
@@ -1234,11 +1242,12 @@ static int yy_get_next_buffer (void)
 
 				b->yy_ch_buf = (char *)
 					/* Include room in for 2 EOB chars. */
-					yyrealloc((void *) b->yy_ch_buf,b->yy_buf_size + 2  );
+					yyrealloc( (void *) b->yy_ch_buf,
+							 (yy_size_t) (b->yy_buf_size + 2)  );
 				}
 			else
 				/* Can't grow it, we don't own it. */
-				b->yy_ch_buf = 0;
+				b->yy_ch_buf = NULL;
 
 			if ( ! b->yy_ch_buf )
 				YY_FATAL_ERROR(
@@ -1266,7 +1275,7 @@ static int yy_get_next_buffer (void)
 		if ( number_to_move == YY_MORE_ADJ )
 			{
 			ret_val = EOB_ACT_END_OF_FILE;
-			yyrestart(yyin  );
+			yyrestart( yyin  );
 			}
 
 		else
@@ -1280,12 +1289,15 @@ static int yy_get_next_buffer (void)
 	else
 		ret_val = EOB_ACT_CONTINUE_SCAN;
 
-	if ((yy_size_t) ((yy_n_chars) + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
+	if (((yy_n_chars) + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
 		/* Extend the array by 50%, plus the number we really need. */
-		yy_size_t new_size = (yy_n_chars) + number_to_move + ((yy_n_chars) >> 1);
-		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) yyrealloc((void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf,new_size  );
+		int new_size = (yy_n_chars) + number_to_move + ((yy_n_chars) >> 1);
+		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) yyrealloc(
+			(void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf, (yy_size_t) new_size  );
 		if ( ! YY_CURRENT_BUFFER_LVALUE->yy_ch_buf )
 			YY_FATAL_ERROR( "out of dynamic memory in yy_get_next_buffer()" );
+		/* "- 2" to take care of EOB's */
+		YY_CURRENT_BUFFER_LVALUE->yy_buf_size = (int) (new_size - 2);
 	}
 
 	(yy_n_chars) += number_to_move;
@@ -1301,14 +1313,14 @@ static int yy_get_next_buffer (void)
 
     static yy_state_type yy_get_previous_state (void)
 {
-	register yy_state_type yy_current_state;
-	register char *yy_cp;
+	yy_state_type yy_current_state;
+	char *yy_cp;
     
 	yy_current_state = (yy_start);
 
 	for ( yy_cp = (yytext_ptr) + YY_MORE_ADJ; yy_cp < (yy_c_buf_p); ++yy_cp )
 		{
-		register YY_CHAR yy_c = (*yy_cp ? yy_ec[YY_SC_TO_UI(*yy_cp)] : 23);
+		YY_CHAR yy_c = (*yy_cp ? yy_ec[YY_SC_TO_UI(*yy_cp)] : 25);
 		if ( yy_accept[yy_current_state] )
 			{
 			(yy_last_accepting_state) = yy_current_state;
@@ -1317,10 +1329,10 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 72 )
-				yy_c = yy_meta[(unsigned int) yy_c];
+			if ( yy_current_state >= 76 )
+				yy_c = yy_meta[yy_c];
 			}
-		yy_current_state = yy_nxt[yy_base[yy_current_state] + (unsigned int) yy_c];
+		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 		}
 
 	return yy_current_state;
@@ -1333,10 +1345,10 @@ static int yy_get_next_buffer (void)
  */
     static yy_state_type yy_try_NUL_trans  (yy_state_type yy_current_state )
 {
-	register int yy_is_jam;
-    	register char *yy_cp = (yy_c_buf_p);
+	int yy_is_jam;
+    	char *yy_cp = (yy_c_buf_p);
 
-	register YY_CHAR yy_c = 23;
+	YY_CHAR yy_c = 25;
 	if ( yy_accept[yy_current_state] )
 		{
 		(yy_last_accepting_state) = yy_current_state;
@@ -1345,18 +1357,20 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 72 )
-			yy_c = yy_meta[(unsigned int) yy_c];
+		if ( yy_current_state >= 76 )
+			yy_c = yy_meta[yy_c];
 		}
-	yy_current_state = yy_nxt[yy_base[yy_current_state] + (unsigned int) yy_c];
-	yy_is_jam = (yy_current_state == 71);
+	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
+	yy_is_jam = (yy_current_state == 75);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
 
-    static void yyunput (int c, register char * yy_bp )
+#ifndef YY_NO_UNPUT
+
+    static void yyunput (int c, char * yy_bp )
 {
-	register char *yy_cp;
+	char *yy_cp;
     
     yy_cp = (yy_c_buf_p);
 
@@ -1366,10 +1380,10 @@ static int yy_get_next_buffer (void)
 	if ( yy_cp < YY_CURRENT_BUFFER_LVALUE->yy_ch_buf + 2 )
 		{ /* need to shift things up to make room */
 		/* +2 for EOB chars. */
-		register yy_size_t number_to_move = (yy_n_chars) + 2;
-		register char *dest = &YY_CURRENT_BUFFER_LVALUE->yy_ch_buf[
+		int number_to_move = (yy_n_chars) + 2;
+		char *dest = &YY_CURRENT_BUFFER_LVALUE->yy_ch_buf[
 					YY_CURRENT_BUFFER_LVALUE->yy_buf_size + 2];
-		register char *source =
+		char *source =
 				&YY_CURRENT_BUFFER_LVALUE->yy_ch_buf[number_to_move];
 
 		while ( source > YY_CURRENT_BUFFER_LVALUE->yy_ch_buf )
@@ -1378,7 +1392,7 @@ static int yy_get_next_buffer (void)
 		yy_cp += (int) (dest - source);
 		yy_bp += (int) (dest - source);
 		YY_CURRENT_BUFFER_LVALUE->yy_n_chars =
-			(yy_n_chars) = YY_CURRENT_BUFFER_LVALUE->yy_buf_size;
+			(yy_n_chars) = (int) YY_CURRENT_BUFFER_LVALUE->yy_buf_size;
 
 		if ( yy_cp < YY_CURRENT_BUFFER_LVALUE->yy_ch_buf + 2 )
 			YY_FATAL_ERROR( "flex scanner push-back overflow" );
@@ -1395,6 +1409,8 @@ static int yy_get_next_buffer (void)
 	(yy_c_buf_p) = yy_cp;
 }
 
+#endif
+
 #ifndef YY_NO_INPUT
 #ifdef __cplusplus
     static int yyinput (void)
@@ -1419,7 +1435,7 @@ static int yy_get_next_buffer (void)
 
 		else
 			{ /* need more input */
-			yy_size_t offset = (yy_c_buf_p) - (yytext_ptr);
+			int offset = (int) ((yy_c_buf_p) - (yytext_ptr));
 			++(yy_c_buf_p);
 
 			switch ( yy_get_next_buffer(  ) )
@@ -1436,14 +1452,14 @@ static int yy_get_next_buffer (void)
 					 */
 
 					/* Reset buffer status. */
-					yyrestart(yyin );
+					yyrestart( yyin );
 
 					/*FALLTHROUGH*/
 
 				case EOB_ACT_END_OF_FILE:
 					{
-					if ( yywrap( ) )
-						return EOF;
+					if ( yywrap(  ) )
+						return 0;
 
 					if ( ! (yy_did_buffer_switch_on_eof) )
 						YY_NEW_FILE;
@@ -1466,7 +1482,7 @@ static int yy_get_next_buffer (void)
 	(yy_hold_char) = *++(yy_c_buf_p);
 
 	if ( c == '\n' )
-		   
+		
     yylineno++;
 ;
 
@@ -1485,11 +1501,11 @@ static int yy_get_next_buffer (void)
 	if ( ! YY_CURRENT_BUFFER ){
         yyensure_buffer_stack ();
 		YY_CURRENT_BUFFER_LVALUE =
-            yy_create_buffer(yyin,YY_BUF_SIZE );
+            yy_create_buffer( yyin, YY_BUF_SIZE );
 	}
 
-	yy_init_buffer(YY_CURRENT_BUFFER,input_file );
-	yy_load_buffer_state( );
+	yy_init_buffer( YY_CURRENT_BUFFER, input_file );
+	yy_load_buffer_state(  );
 }
 
 /** Switch to a different input buffer.
@@ -1517,7 +1533,7 @@ static int yy_get_next_buffer (void)
 		}
 
 	YY_CURRENT_BUFFER_LVALUE = new_buffer;
-	yy_load_buffer_state( );
+	yy_load_buffer_state(  );
 
 	/* We don't actually know whether we did this switch during
 	 * EOF (yywrap()) processing, but the only time this flag
@@ -1545,7 +1561,7 @@ static void yy_load_buffer_state  (void)
 {
 	YY_BUFFER_STATE b;
     
-	b = (YY_BUFFER_STATE) yyalloc(sizeof( struct yy_buffer_state )  );
+	b = (YY_BUFFER_STATE) yyalloc( sizeof( struct yy_buffer_state )  );
 	if ( ! b )
 		YY_FATAL_ERROR( "out of dynamic memory in yy_create_buffer()" );
 
@@ -1554,13 +1570,13 @@ static void yy_load_buffer_state  (void)
 	/* yy_ch_buf has to be 2 characters longer than the size given because
 	 * we need to put in 2 end-of-buffer characters.
 	 */
-	b->yy_ch_buf = (char *) yyalloc(b->yy_buf_size + 2  );
+	b->yy_ch_buf = (char *) yyalloc( (yy_size_t) (b->yy_buf_size + 2)  );
 	if ( ! b->yy_ch_buf )
 		YY_FATAL_ERROR( "out of dynamic memory in yy_create_buffer()" );
 
 	b->yy_is_our_buffer = 1;
 
-	yy_init_buffer(b,file );
+	yy_init_buffer( b, file );
 
 	return b;
 }
@@ -1579,9 +1595,9 @@ static void yy_load_buffer_state  (void)
 		YY_CURRENT_BUFFER_LVALUE = (YY_BUFFER_STATE) 0;
 
 	if ( b->yy_is_our_buffer )
-		yyfree((void *) b->yy_ch_buf  );
+		yyfree( (void *) b->yy_ch_buf  );
 
-	yyfree((void *) b  );
+	yyfree( (void *) b  );
 }
 
 /* Initializes or reinitializes a buffer.
@@ -1593,7 +1609,7 @@ static void yy_load_buffer_state  (void)
 {
 	int oerrno = errno;
     
-	yy_flush_buffer(b );
+	yy_flush_buffer( b );
 
 	b->yy_input_file = file;
 	b->yy_fill_buffer = 1;
@@ -1636,7 +1652,7 @@ static void yy_load_buffer_state  (void)
 	b->yy_buffer_status = YY_BUFFER_NEW;
 
 	if ( b == YY_CURRENT_BUFFER )
-		yy_load_buffer_state( );
+		yy_load_buffer_state(  );
 }
 
 /** Pushes the new state onto the stack. The new state becomes
@@ -1667,7 +1683,7 @@ void yypush_buffer_state (YY_BUFFER_STATE new_buffer )
 	YY_CURRENT_BUFFER_LVALUE = new_buffer;
 
 	/* copied from yy_switch_to_buffer. */
-	yy_load_buffer_state( );
+	yy_load_buffer_state(  );
 	(yy_did_buffer_switch_on_eof) = 1;
 }
 
@@ -1686,7 +1702,7 @@ void yypop_buffer_state (void)
 		--(yy_buffer_stack_top);
 
 	if (YY_CURRENT_BUFFER) {
-		yy_load_buffer_state( );
+		yy_load_buffer_state(  );
 		(yy_did_buffer_switch_on_eof) = 1;
 	}
 }
@@ -1704,15 +1720,15 @@ static void yyensure_buffer_stack (void)
 		 * scanner will even need a stack. We use 2 instead of 1 to avoid an
 		 * immediate realloc on the next call.
          */
-		num_to_alloc = 1;
+      num_to_alloc = 1; /* After all that talk, this was set to 1 anyways... */
 		(yy_buffer_stack) = (struct yy_buffer_state**)yyalloc
 								(num_to_alloc * sizeof(struct yy_buffer_state*)
 								);
 		if ( ! (yy_buffer_stack) )
 			YY_FATAL_ERROR( "out of dynamic memory in yyensure_buffer_stack()" );
-								  
+
 		memset((yy_buffer_stack), 0, num_to_alloc * sizeof(struct yy_buffer_state*));
-				
+
 		(yy_buffer_stack_max) = num_to_alloc;
 		(yy_buffer_stack_top) = 0;
 		return;
@@ -1721,7 +1737,7 @@ static void yyensure_buffer_stack (void)
 	if ((yy_buffer_stack_top) >= ((yy_buffer_stack_max)) - 1){
 
 		/* Increase the buffer to prepare for a possible push. */
-		int grow_size = 8 /* arbitrary grow size */;
+		yy_size_t grow_size = 8 /* arbitrary grow size */;
 
 		num_to_alloc = (yy_buffer_stack_max) + grow_size;
 		(yy_buffer_stack) = (struct yy_buffer_state**)yyrealloc
@@ -1741,7 +1757,7 @@ static void yyensure_buffer_stack (void)
  * @param base the character buffer
  * @param size the size in bytes of the character buffer
  * 
- * @return the newly allocated buffer state object. 
+ * @return the newly allocated buffer state object.
  */
 YY_BUFFER_STATE yy_scan_buffer  (char * base, yy_size_t  size )
 {
@@ -1751,23 +1767,23 @@ YY_BUFFER_STATE yy_scan_buffer  (char * base, yy_size_t  size )
 	     base[size-2] != YY_END_OF_BUFFER_CHAR ||
 	     base[size-1] != YY_END_OF_BUFFER_CHAR )
 		/* They forgot to leave room for the EOB's. */
-		return 0;
+		return NULL;
 
-	b = (YY_BUFFER_STATE) yyalloc(sizeof( struct yy_buffer_state )  );
+	b = (YY_BUFFER_STATE) yyalloc( sizeof( struct yy_buffer_state )  );
 	if ( ! b )
 		YY_FATAL_ERROR( "out of dynamic memory in yy_scan_buffer()" );
 
-	b->yy_buf_size = size - 2;	/* "- 2" to take care of EOB's */
+	b->yy_buf_size = (int) (size - 2);	/* "- 2" to take care of EOB's */
 	b->yy_buf_pos = b->yy_ch_buf = base;
 	b->yy_is_our_buffer = 0;
-	b->yy_input_file = 0;
+	b->yy_input_file = NULL;
 	b->yy_n_chars = b->yy_buf_size;
 	b->yy_is_interactive = 0;
 	b->yy_at_bol = 1;
 	b->yy_fill_buffer = 0;
 	b->yy_buffer_status = YY_BUFFER_NEW;
 
-	yy_switch_to_buffer(b  );
+	yy_switch_to_buffer( b  );
 
 	return b;
 }
@@ -1780,10 +1796,10 @@ YY_BUFFER_STATE yy_scan_buffer  (char * base, yy_size_t  size )
  * @note If you want to scan bytes that may contain NUL values, then use
  *       yy_scan_bytes() instead.
  */
-YY_BUFFER_STATE yy_scan_string (yyconst char * yystr )
+YY_BUFFER_STATE yy_scan_string (const char * yystr )
 {
     
-	return yy_scan_bytes(yystr,strlen(yystr) );
+	return yy_scan_bytes( yystr, (int) strlen(yystr) );
 }
 
 /** Setup the input buffer state to scan the given bytes. The next call to yylex() will
@@ -1793,16 +1809,16 @@ YY_BUFFER_STATE yy_scan_string (yyconst char * yystr )
  * 
  * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE yy_scan_bytes  (yyconst char * yybytes, yy_size_t  _yybytes_len )
+YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, int  _yybytes_len )
 {
 	YY_BUFFER_STATE b;
 	char *buf;
 	yy_size_t n;
-	yy_size_t i;
+	int i;
     
 	/* Get memory for full buffer, including space for trailing EOB's. */
-	n = _yybytes_len + 2;
-	buf = (char *) yyalloc(n  );
+	n = (yy_size_t) (_yybytes_len + 2);
+	buf = (char *) yyalloc( n  );
 	if ( ! buf )
 		YY_FATAL_ERROR( "out of dynamic memory in yy_scan_bytes()" );
 
@@ -1811,7 +1827,7 @@ YY_BUFFER_STATE yy_scan_bytes  (yyconst char * yybytes, yy_size_t  _yybytes_len
 
 	buf[_yybytes_len] = buf[_yybytes_len+1] = YY_END_OF_BUFFER_CHAR;
 
-	b = yy_scan_buffer(buf,n );
+	b = yy_scan_buffer( buf, n );
 	if ( ! b )
 		YY_FATAL_ERROR( "bad buffer in yy_scan_bytes()" );
 
@@ -1827,9 +1843,9 @@ YY_BUFFER_STATE yy_scan_bytes  (yyconst char * yybytes, yy_size_t  _yybytes_len
 #define YY_EXIT_FAILURE 2
 #endif
 
-static void yy_fatal_error (yyconst char* msg )
+static void yynoreturn yy_fatal_error (const char* msg )
 {
-    	(void) fprintf( stderr, "%s\n", msg );
+			fprintf( stderr, "%s\n", msg );
 	exit( YY_EXIT_FAILURE );
 }
 
@@ -1857,7 +1873,7 @@ static void yy_fatal_error (yyconst char* msg )
  */
 int yyget_lineno  (void)
 {
-        
+    
     return yylineno;
 }
 
@@ -1880,7 +1896,7 @@ FILE *yyget_out  (void)
 /** Get the length of the current token.
  * 
  */
-yy_size_t yyget_leng  (void)
+int yyget_leng  (void)
 {
         return yyleng;
 }
@@ -1895,29 +1911,29 @@ char *yyget_text  (void)
 }
 
 /** Set the current line number.
- * @param line_number
+ * @param _line_number line number
  * 
  */
-void yyset_lineno (int  line_number )
+void yyset_lineno (int  _line_number )
 {
     
-    yylineno = line_number;
+    yylineno = _line_number;
 }
 
 /** Set the input stream. This does not discard the current
  * input buffer.
- * @param in_str A readable stream.
+ * @param _in_str A readable stream.
  * 
  * @see yy_switch_to_buffer
  */
-void yyset_in (FILE *  in_str )
+void yyset_in (FILE *  _in_str )
 {
-        yyin = in_str ;
+        yyin = _in_str ;
 }
 
-void yyset_out (FILE *  out_str )
+void yyset_out (FILE *  _out_str )
 {
-        yyout = out_str ;
+        yyout = _out_str ;
 }
 
 int yyget_debug  (void)
@@ -1925,9 +1941,9 @@ int yyget_debug  (void)
         return yy_flex_debug;
 }
 
-void yyset_debug (int  bdebug )
+void yyset_debug (int  _bdebug )
 {
-        yy_flex_debug = bdebug ;
+        yy_flex_debug = _bdebug ;
 }
 
 static int yy_init_globals (void)
@@ -1939,10 +1955,10 @@ static int yy_init_globals (void)
     /* We do not touch yylineno unless the option is enabled. */
     yylineno =  1;
     
-    (yy_buffer_stack) = 0;
+    (yy_buffer_stack) = NULL;
     (yy_buffer_stack_top) = 0;
     (yy_buffer_stack_max) = 0;
-    (yy_c_buf_p) = (char *) 0;
+    (yy_c_buf_p) = NULL;
     (yy_init) = 0;
     (yy_start) = 0;
 
@@ -1951,8 +1967,8 @@ static int yy_init_globals (void)
     yyin = stdin;
     yyout = stdout;
 #else
-    yyin = (FILE *) 0;
-    yyout = (FILE *) 0;
+    yyin = NULL;
+    yyout = NULL;
 #endif
 
     /* For future reference: Set errno on error, since we are called by
@@ -1967,7 +1983,7 @@ int yylex_destroy  (void)
     
     /* Pop the buffer stack, destroying each element. */
 	while(YY_CURRENT_BUFFER){
-		yy_delete_buffer(YY_CURRENT_BUFFER  );
+		yy_delete_buffer( YY_CURRENT_BUFFER  );
 		YY_CURRENT_BUFFER_LVALUE = NULL;
 		yypop_buffer_state();
 	}
@@ -1988,18 +2004,19 @@ int yylex_destroy  (void)
  */
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char* s1, yyconst char * s2, int n )
+static void yy_flex_strncpy (char* s1, const char * s2, int n )
 {
-	register int i;
+		
+	int i;
 	for ( i = 0; i < n; ++i )
 		s1[i] = s2[i];
 }
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * s )
+static int yy_flex_strlen (const char * s )
 {
-	register int n;
+	int n;
 	for ( n = 0; s[n]; ++n )
 		;
 
@@ -2009,11 +2026,12 @@ static int yy_flex_strlen (yyconst char * s )
 
 void *yyalloc (yy_size_t  size )
 {
-	return (void *) malloc( size );
+			return malloc(size);
 }
 
 void *yyrealloc  (void * ptr, yy_size_t  size )
 {
+		
 	/* The cast to (char *) in the following accommodates both
 	 * implementations that use char* generic pointers, and those
 	 * that use void* generic pointers.  It works with the latter
@@ -2021,18 +2039,17 @@ void *yyrealloc  (void * ptr, yy_size_t  size )
 	 * any pointer type to void*, and deal with argument conversions
 	 * as though doing an assignment.
 	 */
-	return (void *) realloc( (char *) ptr, size );
+	return realloc(ptr, size);
 }
 
 void yyfree (void * ptr )
 {
-	free( (char *) ptr );	/* see yyrealloc() for (char *) cast */
+			free( (char *) ptr );	/* see yyrealloc() for (char *) cast */
 }
 
 #define YYTABLES_NAME "yytables"
 
-#line 154 "star.l"
-
+#line 169 "star.l"
 
 /* This routine is called during initialisation to avoid any problems
    which might arise due to a syntax error not re-initialising the 
diff --git a/src/lib/py_star_scan.c b/src/lib/py_star_scan.c
index 46aeae3..b4f8439 100644
--- a/src/lib/py_star_scan.c
+++ b/src/lib/py_star_scan.c
@@ -64,14 +64,19 @@ get_input(PyObject * self, PyObject * args)
 {
 PyObject * str_arg;  /* A python string object in theory */
 int i;
-if(!(PyArg_ParseTuple(args,"U",&str_arg))) return NULL;
+int brackets = 0;
+Py_ssize_t input_len = 0;
+if(!(PyArg_ParseTuple(args,"U|i",&str_arg,&brackets))) return NULL;
 #if PY_MAJOR_VERSION >= 3
- input_string = PyUnicode_AsUTF8(str_arg);
+ input_string = PyUnicode_AsUTF8AndSize(str_arg,&input_len);
 #else
  input_string = PyString_AsString(str_arg);
+ if(input_string!=NULL) input_len = strlen(input_string);
 #endif
+if(input_string==NULL) return NULL;
+allow_brackets = brackets;
 string_pos = 0;
-in_string_len = strlen(input_string);
+in_string_len = input_len;
 star_clear();
 for(i=0;i<current_len;i++){
   /* printf("New input, freeing value %d\n",i); */
@@ -125,7 +130,7 @@ if(current_len+1>alloc_mem) {
 save_str = (char *) malloc((yyleng+1)*sizeof(char *));
 /* printf("Got memory for string %s length %d at %x\n",yytext,yyleng+1,save_str);*/
 strncpy(save_str,yytext,yyleng+1);
-value_list[current_len] = PyUnicode_FromString(save_str); /* new reference */
+value_list[current_len] = PyUnicode_DecodeUTF8(save_str,strlen(save_str),"replace"); /* new reference */
 token_list[current_len] = tok_id;
 line_no_list[current_len] = yylineno;
 current_len++;
diff --git a/src/lib/star.l b/src/lib/star.l
index adf7ded..21461a4 100644
--- a/src/lib/star.l
+++ b/src/lib/star.l
@@ -24,11 +24,11 @@ Match for EOL at EOF contributed by Boris Dusek
 {\
 if(string_pos == in_string_len) result = YY_NULL;\
 if(string_pos + max_size <= in_string_len) {\
-    strncpy(buf,input_string+string_pos,max_size);\
+    memcpy(buf,input_string+string_pos,max_size);\
     string_pos +=max_size;\
     result =max_size;\
     } else {\
-    strncpy(buf,input_string+string_pos,in_string_len - string_pos);\
+    memcpy(buf,input_string+string_pos,in_string_len - string_pos);\
     result = in_string_len - string_pos;\
     string_pos = in_string_len;\
     }\
@@ -56,10 +56,11 @@ Global_		{g}{l}{o}{b}{a}{l}_
 Stop_		{s}{t}{o}{p}_
 Save_		{s}{a}{v}{e}_
 Char		[^\n\r\0]
-TrueChar        [][!%&\(\)*+,./:<=>?@0-9A-Za-z\\^`{}|~"#$';_ \t-]
+TrueChar        [^\n\r\0]
 Blank		[\n \t\r\0]
 NonBlank	[^\n \t\r]
 TrueNonBlank    [][!%&\(\)*+,./:<=>?@0-9A-Za-z\\^`{}|~"#$';_-]
+ValNonBlank     [^ \t\n\r\f\v\x1c-\x1f\0]
 NonDQuote	[^\n\r"\0]
 NonSQuote	[^\n\r'\0]
 NotUnderscore	[^\n \r\t_\0]
@@ -83,16 +84,29 @@ EndOfLine	{Spaces}({Comment})?(\n|\r|\r\n)
 {Save_}                 {return(DSAVE_END);}
 {Data_}{TrueNonBlank}+      {return(DDATA_HEADING);}
 _{TrueNonBlank}+            {return(DDATA_NAME);}
+({Data_}|{Save_}|{Global_}|{Stop_}){ValNonBlank}*  {/* reserved, never a value */
+                        YY_FLUSH_BUFFER;
+                        return(DERROR);
+                        }
 {Spaces}                {/* do nothing */}
 {Comment}               {/* do nothing */}
 {EndOfLine}/[^;]        {/* do nothing */}
 
 (\n|\r\n);({TrueChar})*(\r\n|\r|\n)+ {BEGIN(Alltext);return(DSTART_SC_LINE);}
+(\n|\r\n|\r);           {/* unterminated text */
+                        YY_FLUSH_BUFFER;
+                        return(DERROR);
+                        }
 <Alltext>[^;\r\n]({TrueChar})*(\r\n|\r|\n)+   {return(DSC_LINE_OF_TEXT);}
 <Alltext>;                                 {BEGIN(INITIAL);
 					    return(DEND_SC_LINE);}
 
-([^\n\r\t \"#$\'_\[\]\0]{TrueNonBlank}*) {return(DDATA_VALUE_1);}
+([^ \t\n\r\f\v\x1c-\x1f\"#$\'_\[\]\0]{ValNonBlank}*) {return(DDATA_VALUE_1);}
+[\[\]]{ValNonBlank}*    {/* only the original CIF syntax allows these */
+                        if(allow_brackets) return(DDATA_VALUE_1);
+                        YY_FLUSH_BUFFER;
+                        return(DERROR);
+                        }
 
 \'{TrueChar}*\'  {/* this code borrowed from star.l in
                  starbase.  We can't write a rule in 
@@ -109,7 +123,7 @@ _{TrueNonBlank}+            {return(DDATA_NAME);}
                   * (? == null) or (? == space) => end of string, stop
                   */
                  while ( p = strchr( p, '\''))
-                    if (isspace( *(++p))) {
+                    if (isspace( (unsigned char) *(++p))) {
                        /* (? == space) => push back rest of the input,
                         *                 S_Q_T_S */
                        /* this is to avoid side effects in the macro */
@@ -134,7 +148,7 @@ _{TrueNonBlank}+            {return(DDATA_NAME);}
                   * (? == null) or (? == space) => end of string, stop
                   */
                  while ( p = strchr( p, '\"'))
-                    if (isspace( *(++p))) {
+                    if (isspace( (unsigned char) *(++p))) {
                        /* (? == space) => push back rest of the input,
                         *                 S_Q_T_S */
                        /* this is to avoid side effects in the macro */
@@ -144,7 +158,7 @@ _{TrueNonBlank}+            {return(DDATA_NAME);}
                  return(DDATA_VALUE_1);
                  }
 
-\0                      {YY_FLUSH_BUFFER; return(DEND);}
+\0                      {YY_FLUSH_BUFFER; return(DERROR);}
 [\n]                    {/*printf("Stray carriage return...\n");*/}
 .			{
 			/* printf("Unexpected Character\n");*/
diff --git a/src/lib/star_scanner.h b/src/lib/star_scanner.h
index f880b7e..1bc425c 100644
--- a/src/lib/star_scanner.h
+++ b/src/lib/star_scanner.h
@@ -10,6 +10,7 @@ char * tokens[] = {"END","LBLOCK","GLOBAL","STOP",
 char * input_string;     /* where flex gets input */
 size_t string_pos;          /* current position */
 size_t in_string_len;       /* total length */
+int allow_brackets;         /* values may start with a square bracket */
 int * token_list;           /* list of tokens */
 int * line_no_list;         /* list of token positions */
 PyObject ** value_list;      /* list of values */
@@ -25,6 +26,7 @@ extern size_t yylineno;
 extern char * input_string;
 extern size_t string_pos;
 extern size_t in_string_len;
+extern int allow_brackets;
 #endif
 
 /* defines to index into the token list */
diff --git a/src/yapps3_compiled_rt.py b/src/yapps3_compiled_rt.py
index 1d5ae66..e865d75 100644
--- a/src/yapps3_compiled_rt.py
+++ b/src/yapps3_compiled_rt.py
@@ -86,7 +86,7 @@ class Scanner:
 
     """
 
-    def __init__(self, patterns, ignore, input, scantype="standard"):
+    def __init__(self, patterns, ignore, input, scantype="standard", brackets=False):
         """Initialize the scanner.
 
         Parameters:
@@ -107,7 +107,7 @@ class Scanner:
         self.scantype = scantype
         self.first_line_number = 1
         if self.scantype == "flex" and have_star_scan:
-            StarScan.prepare(input)
+            StarScan.prepare(input, int(brackets))
             self.scan = self.compiled_scan
             self.token = self.compiled_token
             self.__del__ = StarScan.cleanup
-- 
2.43.0


From 0181b8834dd6b3712a196fe3938b7e35e75e773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 025/154] fix: reading an empty file returns the (empty) file
 object

---
 src/StarFile.nw | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index a2b1f90..e20ee8d 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1094,7 +1094,8 @@ def ReadStar(filename,prepared = None, maxlength=-1,
                     raise StarError("Bad input encoding (must be utf8 or ascii)")
         my_uri = ""
     if not text:      # empty file, return empty block
-        return prepared.set_uri(my_uri)
+        prepared.set_uri(my_uri)
+        return prepared
     # filter out non-ASCII characters in CBF files if required.  We assume
     # that the binary is enclosed in a fixed string that occurs
     # nowhere else.
-- 
2.43.0


From 57bf883fb11f3f32fe007a3edd484866172394f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 026/154] fix: permissive reading of latin1 files does not lose
 the contents

---
 src/StarFile.nw | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e20ee8d..5fd7ba8 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1071,11 +1071,12 @@ def ReadStar(filename,prepared = None, maxlength=-1,
             my_uri = urlunparse(relpath)
         # print("Full URL is: " + my_uri)
         filestream = urlopen(my_uri)
+        raw_text = filestream.read()
         try:
-            text = filestream.read().decode('utf-8-sig')
+            text = raw_text.decode('utf-8-sig')
         except UnicodeDecodeError:
             if permissive:
-                text = filestream.read().decode('latin1')
+                text = raw_text.decode('latin1')
                 print("WARNING: %s violates standard (latin1 encoding instead of UTF8)." % filename)
             else:
                 raise StarError("%s: bad encoding (must be utf8 or ascii)" % filename)
@@ -1084,11 +1085,12 @@ def ReadStar(filename,prepared = None, maxlength=-1,
         filestream = filename   #already opened for us
         text = filestream.read()
         if not isinstance(text,unicode):
+            raw_text = text
             try:
-                text = text.decode('utf-8-sig')  #CIF is always ascii/utf8
+                text = raw_text.decode('utf-8-sig')  #CIF is always ascii/utf8
             except UnicodeDecodeError:
                 if permissive:
-                    text = filestream.read().decode('latin1')
+                    text = raw_text.decode('latin1')
                     print("WARNING: text violates CIF standard (latin1 encoding instead of UTF8)")
                 else:
                     raise StarError("Bad input encoding (must be utf8 or ascii)")
-- 
2.43.0


From c1a9b0099f5b9d360020f381961ca2ace299c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 027/154] fix: a rejected grammar leaves nothing behind when
 the grammar is detected automatically

---
 src/StarFile.nw | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 5fd7ba8..f430353 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1123,6 +1123,8 @@ def ReadStar(filename,prepared = None, maxlength=-1,
         try_list.remove(('2.0',Y20),)
         if not try_list:
             raise StarError('File %s missing CIF2.0 header' % (filename))
+    contents = [(a,getattr(prepared,a).copy()) for a in
+                ('dictionary','child_table','renamed','lower_keys','visible_keys','block_input_order')]
     for grammar_name,Y in try_list:
        if scantype == 'standard' or grammar_name in ['2.0','STAR2']:
             parser = Y.StarParser(Y.StarParserScanner(text))
@@ -1149,6 +1151,9 @@ def ReadStar(filename,prepared = None, maxlength=-1,
        if proto_star is not None:
            proto_star.set_grammar(grammar_name)   #remember for output
            break
+       # discard any blocks stored by the unsuccessful attempt
+       for attribute,value in contents:
+           setattr(prepared,attribute,value.copy())
     if proto_star is None:
         errorstring = 'Syntax error in input file: last value parsed was %s' % Y.lastval
         errorstring = errorstring + '\nParser status: %s' % repr( parser._scanner )
-- 
2.43.0


From f628b224e21d6a36a1e21f6b2d18553277b76a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 028/154] fix: quoted text in CIF2 and STAR2 must be followed
 by a separator

---
 src/YappsStarParser.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index b3e0960..4943910 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -240,8 +240,8 @@ token dat_val_internal_sq: "\[([^\s\[\]]*)\]"
 # For tests of new DDLm syntax - no quotes or apostrophes in strings, no commas, braces or square brackets in undelimited data values
 # This token for triple-quote delimited strings must come before single-quote delimited strings to avoid the opening quotes being
 # interpreted as a single-quote delimited string
-token triple_quote_data_value: "(?s)'''.*?'''|\"\"\".*?\"\"\""
-token single_quote_data_value: "'([^\n\r\f'])*'|\"([^\n\r\"])*\""
+token triple_quote_data_value: "(?s)('''((?!''').)*'''|\"\"\"((?!\"\"\").)*\"\"\")(?![^\s\[\]\{\},:#])"
+token single_quote_data_value: "('([^\n\r\f'])*'|\"([^\n\r\"])*\")(?![^\s\[\]\{\},:#])"
 
 @ Currently just a single line but we allow a whole block just in case.
 
-- 
2.43.0


From 15099cd3e61aaf1abb1743046af6918a08aa6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 029/154] fix: CreateLoop puts the loop at the requested
 position also when its datanames came earlier

---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index f430353..a45f91d 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2072,12 +2072,12 @@ def CreateLoop(self,datanames,order=-1,length_check=True):
        else:
            loopno = 1
        self.loops[loopno] = list(lc_datanames)
+       # remove these datanames from item ordering
+       self.item_order = [a for a in self.item_order if a not in lc_datanames]
        if order >= 0:
            self.item_order.insert(order,loopno)
        else:
            self.item_order.append(loopno)
-       # remove these datanames from item ordering
-       self.item_order = [a for a in self.item_order if a not in lc_datanames]
 
 @  Removing a loop. The looped names are not removed, but will cause chaos on output
 unless they are placed into a different loop or deleted.
-- 
2.43.0


From 02ca9e002b58e6358977740d766b181ed254404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 030/154] fix: CreateLoop refuses a dataname given twice

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index a45f91d..7a8b0d4 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2046,6 +2046,8 @@ def CreateLoop(self,datanames,order=-1,length_check=True):
        out. A single-row loop will be created if the provided datanames are all
        non-lists. A loop counts as a single position."""
 
+       if len(set([d.lower() for d in datanames])) < len(datanames):
+           raise ValueError('Request to loop datanames %s, which are not all different' % repr( datanames ))
        if length_check:
            # check lengths: these datanames should exist
            listed_values = [a for a in datanames if isinstance(self[a],list) and not isinstance(self[a],StarList)]
-- 
2.43.0


From 96d74e8afffeea55b8f70371cd2eaba64a1a7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 031/154] fix: ChangeItemOrder accepts loop numbers

---
 src/StarFile.nw | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 7a8b0d4..2851298 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1698,9 +1698,10 @@ def ChangeItemOrder(self,itemname,newpos):
     in a loop, `newpos` refers to the order within the loop."""
     if isinstance(itemname,(unicode,str)):
         true_name = itemname.lower()
-    else:
+        loopno = self.FindLoop(true_name)
+    else:    #a loop number
         true_name = itemname
-    loopno = self.FindLoop(true_name)
+        loopno = -1
     if loopno < 0:  #top level
         self.item_order.remove(true_name)
         self.item_order.insert(newpos,true_name)
-- 
2.43.0


From 08892396b872dd15d7b23f0f89967cdac5b5ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 032/154] fix: AddLoopName counts a single value as one value,
 not as its characters

---
 src/StarFile.nw | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 2851298..c9dc0dc 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2117,8 +2117,13 @@ def AddLoopName(self,oldname, newname):
     self.provide_value = False
     loop_len = len(self[oldname])
     self.provide_value = old_provides
-    if len(self[newname]) != loop_len:
+    newvalue = self[newname]
+    single = not isinstance(newvalue,(list,tuple)) or isinstance(newvalue,StarList)
+    if single: newvalue = [newvalue]
+    if len(newvalue) != loop_len:
         raise StarLengthError('Mismatch of loop column lengths for %s: should be %d' % (newname,loop_len))
+    if single:     #becomes a loop column
+        self.AddItem(self.true_case[lower_newname],newvalue)
     # remove from any other loops
     [self.loops[a].remove(lower_newname) for a in self.loops if lower_newname in self.loops[a]]
     # and add to this loop
-- 
2.43.0


From 877120d7aeeb755b579f89fabcbd3bd6ed5761cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 033/154] fix: moving the last column of a loop to another loop
 removes the empty loop

---
 src/StarFile.nw | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index c9dc0dc..6035e58 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2126,6 +2126,11 @@ def AddLoopName(self,oldname, newname):
         self.AddItem(self.true_case[lower_newname],newvalue)
     # remove from any other loops
     [self.loops[a].remove(lower_newname) for a in self.loops if lower_newname in self.loops[a]]
+    # remove empty loops
+    empty_loops = [a for a in self.loops.keys() if len(self.loops[a])==0]
+    for a in empty_loops:
+        self.item_order.remove(a)
+        del self.loops[a]
     # and add to this loop
     self.loops[loop_no].append(lower_newname)
     # remove from item_order if present
-- 
2.43.0


From e1d7ec03e6e5dc7ba3244ad744f55c87b2cd9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 034/154] fix: access to loop columns ignores the case of the
 dataname like access to the block

---
 src/StarFile.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 6035e58..e272c71 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1266,7 +1266,7 @@ def items(self):
 def __getitem__(self,dataname):
     if isinstance(dataname,int):   #a packet request
         return self.GetPacket(dataname)
-    if dataname in self.keys():
+    if dataname in self:
         return self.parent_block[dataname]
     else:
         raise KeyError('%s not in loop block' % dataname)
@@ -1276,7 +1276,7 @@ def __setitem__(self,dataname,value):
     self.parent_block.AddLoopName(self.keys()[0],dataname)
 
 def __contains__(self,key):
-    return key in self.parent_block.loops[self.loop_no]
+    return isinstance(key,(unicode,str)) and key.lower() in self.parent_block.loops[self.loop_no]
 
 def has_key(self,key):
     return key in self
-- 
2.43.0


From c88cd166da1c6bc91bb172d776a06e607d46deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 035/154] fix: refusing to add a loop column of different
 length leaves the block unchanged

---
 src/StarFile.nw | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e272c71..6e7e0ff 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1272,6 +1272,8 @@ def __getitem__(self,dataname):
         raise KeyError('%s not in loop block' % dataname)
 
 def __setitem__(self,dataname,value):
+    if dataname not in self:   #do not store what can not be added
+        self.parent_block.check_column_length(self.keys()[0],dataname,value)
     self.parent_block[dataname] = value
     self.parent_block.AddLoopName(self.keys()[0],dataname)
 
@@ -2101,6 +2103,16 @@ may trigger a round of evaluation, which we wish to avoid, so we make sure to sw
 in this case.
 
 <<Add name to loop>>=
+def check_column_length(self,oldname,newname,newvalue):
+    """Raise an error if the number of values in `newvalue`, intended for dataname
+    `newname`, differs from the number of values of looped dataname `oldname`"""
+    loop_len = len(self.GetItemValue(oldname))
+    newvalue = self.regularise_data(newvalue)[0]
+    if not isinstance(newvalue,(list,tuple)) or isinstance(newvalue,StarList):
+        newvalue = [newvalue]     #a single value
+    if len(newvalue) != loop_len:
+        raise StarLengthError('Mismatch of loop column lengths for %s: should be %d' % (newname,loop_len))
+
 def AddLoopName(self,oldname, newname):
     """Add `newname` to the loop containing `oldname`. If it is already in the new loop, no
     error is raised.  If `newname` is in a different loop, it is removed from that loop.
@@ -2194,6 +2206,9 @@ def AddToLoop(self,dataname,loopdata):
     Add multiple columns to the loop containing `dataname`. `loopdata` is a
     collection of (key,value) pairs, where `key` is the new dataname and `value`
     is a list of values for that dataname"""
+    for one_name in loopdata:     #do not store what can not be added
+        if one_name.lower() not in self.GetLoopNames(dataname):
+            self.check_column_length(dataname,one_name,loopdata[one_name])
     self.update(loopdata)
     for one_name in loopdata:
         self.AddLoopName(dataname,one_name)
-- 
2.43.0


From 4c7224ca9385a25c680f43c5d0e4f251d8e054d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 036/154] fix: AddLoopItem leaves the block unchanged when the
 columns can not be looped

---
 src/StarFile.nw | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 6e7e0ff..4a5385a 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1781,7 +1781,12 @@ def AddLoopItem(self,incomingdata,precheck=False,maxlength=-1):
     # of values -> single-item into our loop
     if isinstance(incomingdata[0],(tuple,list)):
        # a whole loop
-       keyvallist = zip(incomingdata[0],incomingdata[1])
+       keyvallist = list(zip(incomingdata[0],incomingdata[1]))
+       #do not store what can not be looped
+       columns = [self.regularise_data(value)[0] for value in incomingdata[1]]
+       lengths = [len(c) if isinstance(c,list) and not isinstance(c,StarList) else -1 for c in columns]
+       if len(columns) != len(incomingdata[0]) or len(set(lengths)) > 1:
+           raise ValueError('Request to loop datanames %s with different lengths: %s' % (repr( incomingdata[0] ),repr( lengths )))
        for key,value in keyvallist:
            self.AddItem(key,value)
        self.CreateLoop(incomingdata[0])
-- 
2.43.0


From 86567ed3d6e8b349cf64903d34de7da9bc6b643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 037/154] fix: packets can be removed from loops that were read
 from a file

---
 src/StarFile.nw | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 4a5385a..640bfe3 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2418,10 +2418,10 @@ def RemoveKeyedPacket(self,keyname,keyvalue):
     packet_coord = list(self[keyname]).index(keyvalue)
     loopnames = self.GetLoopNames(keyname)
     for dataname in loopnames:
-        self.block[dataname][0] = list(self.block[dataname][0])
-        del self.block[dataname][0][packet_coord]
-        self.block[dataname][1] = list(self.block[dataname][1])
-        del self.block[dataname][1][packet_coord]
+        for form in (0,1):    #text and calculation values: one may be absent
+            if self.block[dataname][form] is not None:
+                self.block[dataname][form] = list(self.block[dataname][form])
+                del self.block[dataname][form][packet_coord]
 
 @ \section{Output}
 
-- 
2.43.0


From 2b4dc5eb32741349d86ffb396a9f2886a65e4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 038/154] fix: AddPacket leaves the loop unchanged when the
 packet is not suitable, and keeps the spelling of the datanames

---
 src/StarFile.nw | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 640bfe3..772487e 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1358,10 +1358,14 @@ advisable to create a new packet by copying an old packet.
 
 <<Add a packet>>=
 def AddPacket(self,packet):
+    # prepare all columns first so that nothing changes if the packet is not suitable
+    new_columns = []
     for myitem in self.parent_block.loops[self.loop_no]:
-        old_values = self.parent_block[myitem]
-        old_values.append(packet.__getattribute__(myitem))
-        self.parent_block[myitem] = old_values
+        new_values = list(self.parent_block[myitem]) + [packet.__getattribute__(myitem)]
+        self.parent_block.check_item_value(self.parent_block.regularise_data(new_values)[0])
+        new_columns.append((self.parent_block.true_case[myitem],new_values))
+    for myitem,new_values in new_columns:
+        self.parent_block[myitem] = new_values
 
 @ Return order of items - this is just a copy of the list of datanames
 making up this loop.
-- 
2.43.0


From 6a9dc9120d4f904ba81f40f1bd9dde90a939117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 039/154] fix: values can be assigned to packets with any case
 of the dataname

---
 src/StarFile.nw | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 772487e..5ae82d1 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1324,6 +1324,10 @@ class StarPacket(list):
         for na in new_attrs:
             setattr(self,na,getattr(incoming,na))
 
+    def __setattr__(self,att_name,value):
+        """The case of datanames is not significant"""
+        super(StarPacket,self).__setattr__(att_name.lower(),value)
+
     def __getattr__(self,att_name):
         """Derive a missing attribute"""
         if att_name.lower() in self.__dict__:
-- 
2.43.0


From 58af3783cbe5fbc12f7d55864649706248db2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 040/154] fix: GetKeyedPacket ignoring case does not fail for
 numbers

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 5ae82d1..bc94f68 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2247,7 +2247,7 @@ def GetKeyedPacket(self,keyname,keyvalue,no_case=False):
     #print('Packet check on:' + keyname)
     #[print(repr(getattr(a,keyname))) for a in my_loop]
     if no_case:
-       one_pack= [a for a in my_loop if getattr(a,keyname).lower()==keyvalue.lower()]
+       one_pack= [a for a in my_loop if str(getattr(a,keyname)).lower()==str(keyvalue).lower()]
     else:
        one_pack= [a for a in my_loop if getattr(a,keyname)==keyvalue]
     if len(one_pack)!=1:
-- 
2.43.0


From 590bfe12c46e44d86048a23fc97108e3833f8039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 041/154] fix: a loop column with no values can be assigned

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index bc94f68..cafa0cc 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1884,6 +1884,7 @@ def regularise_data(self,dataitem):
     if isinstance(dataitem,(Number,unicode,StarList,StarDict)):
         return dataitem,None  #assume StarList/StarDict contain unicode if necessary
     if isinstance(dataitem,(tuple,list)):
+        if len(dataitem)==0: return [],[]
         v,s = zip(*list([self.regularise_data(a) for a in dataitem]))
         return list(v),list(s)
         #return dataitem,[None]*len(dataitem)
@@ -1892,6 +1893,7 @@ def regularise_data(self,dataitem):
         regval = list(dataitem)
     except TypeError as value:
         raise StarError( str(dataitem) + ' is wrong type for data value\n' )
+    if len(regval)==0: return [],[]
     v,s = zip(*list([self.regularise_data(a) for a in regval]))
     return list(v),list(s)
 
-- 
2.43.0


From 880da9a22c81c89bde87f19987024ec716cb428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 042/154] fix: copies of a block do not share loops and values
 with the original, and CifBlocks can be copied

---
 src/CifFile_module.nw |  4 ++--
 src/StarFile.nw       | 15 ++++-----------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 341da4b..8476a79 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -255,8 +255,8 @@ def __setitem__(self,key,value):
              self.CreateLoop([key])
 
 def copy(self):
-    newblock = super(CifBlock,self).copy()
-    return self.copy.im_class(newblock)   #catch inheritance
+    return CifBlock(self,strict=(self.maxnamelength>0),compat_mode=self.compat_mode,
+                    characterset=self.characterset)
 
 @ This function was added for the dictionary validation routines.  It
 will return a list where each member is itself a list of item names,
diff --git a/src/StarFile.nw b/src/StarFile.nw
index cafa0cc..30289f3 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -92,6 +92,7 @@ except:
     from urllib.request import urlopen
     from urllib.parse import urlparse,urlunparse
 import re,os
+import copy
 import textwrap
 
 try:
@@ -1504,11 +1505,11 @@ def __init__(self,data = (), maxoutlength=2048, wraplength=80, overwrite=True,
         for item in data:
             self.AddLoopItem(item)
     elif isinstance(data,StarBlock):
-        self.block = data.block.copy()
+        self.block = copy.deepcopy(data.block)
         self.item_order = data.item_order[:]
         self.true_case = data.true_case.copy()
         # loops as well
-        self.loops = data.loops.copy()
+        self.loops = copy.deepcopy(data.loops)
 
 def setmaxnamelength(self,maxlength):
     """Set the maximum allowable dataname length (-1 for no check)"""
@@ -1662,16 +1663,8 @@ def clear(self):
     self.item_order = []
     self.true_case = {}
 
-# doesn't appear to work
 def copy(self):
-    newcopy = StarBlock()
-    newcopy.block = self.block.copy()
-    newcopy.loops = []
-    newcopy.item_order = self.item_order[:]
-    newcopy.true_case = self.true_case.copy()
-    newcopy.loops = self.loops.copy()
-#    return self.copy.im_class(newcopy)   #catch inheritance
-    return newcopy
+    return StarBlock(self,characterset=self.characterset)
 
 def update(self,adict):
     for key in adict.keys():
-- 
2.43.0


From 4ade0eefea69894e84e825b42038f455e50ee884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 043/154] fix: collections of blocks can be copied

---
 src/StarFile.nw | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 30289f3..ccaa92b 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -371,16 +371,16 @@ def clear(self):
     self.block_input_order = []
 
 def copy(self):
-    newcopy = self.dictionary.copy()  #all blocks
-    for k,v in self.dictionary.items():
-        newcopy[k] = v.copy()
-    newcopy = BlockCollection(newcopy)
+    newcopy = copy.copy(self)       #same type and settings
+    newcopy.dictionary = dict([(k,v.copy()) for k,v in self.dictionary.items()])
     newcopy.child_table = self.child_table.copy()
     newcopy.lower_keys = self.lower_keys.copy()
-    newcopy.block_input_order = self.block_input_order.copy()
-    newcopy.characterset = self.characterset
-    newcopy.SetTemplate(self.master_template.copy())
-    newcopy.scoping = self.scoping  #this sets visible keys
+    newcopy.block_input_order = self.block_input_order[:]
+    newcopy.visible_keys = self.visible_keys[:]
+    newcopy.renamed = self.renamed.copy()
+    newcopy.master_template = copy.deepcopy(self.master_template)
+    for b in newcopy.dictionary.values():
+        b.formatting_hints = newcopy.master_template
     return newcopy
 
 def update(self,adict):
-- 
2.43.0


From 93e899bdc5bfe36b004a4f6ec33ad17985dd8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 044/154] fix: collections made by get_children and makebc are
 complete and can be written

---
 src/StarFile.nw | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index ccaa92b..0a1576d 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -229,6 +229,7 @@ def __init__(self,datasource=None,standard='CIF',blocktype = StarBlock,
     self.scoping = scoping  #will trigger setting of child table
     self.blocktype = blocktype
     self.master_template = {}   #for outputting
+    self.maxoutlength = 2048
     self.set_grammar('2.0')
     self.set_characterset(characterset)
     if isinstance(datasource,BlockCollection):
@@ -421,7 +422,7 @@ def get_children(self,blockname,include_parent=False,scoping='dictionary'):
     True, the parent block will also be included in the block collection as the root."""
     newbc = BlockCollection()
     block_lower = blockname.lower()
-    proto_child_table = [a for a in self.child_table.items() if self.is_child_of_parent(block_lower,a[1].block_id)]
+    proto_child_table = [a for a in self.child_table.items() if self.is_child_of_parent(block_lower,a[0])]
     newbc.child_table = dict(proto_child_table)
     if not include_parent:
        newbc.child_table.update(dict([(a[0],self.PC(a[1].block_id,None)) for a in proto_child_table if a[1].parent == block_lower]))
@@ -431,6 +432,7 @@ def get_children(self,blockname,include_parent=False,scoping='dictionary'):
         newbc.child_table.update({block_lower:self.PC(self.child_table[block_lower].block_id,None)})
         newbc.lower_keys.add(block_lower)
         newbc.dictionary.update({block_lower:self.dictionary[block_lower]})
+    newbc.block_input_order = [a for a in self.block_input_order if a in newbc.lower_keys]
     newbc.scoping = scoping
     return newbc
 
@@ -487,7 +489,10 @@ def makebc(self,namelist,scoping='dictionary'):
     newbc.lower_keys = set([a[0] for a in proto_child_table])
     newbc.dictionary = dict((a[0],self.dictionary[a[0]]) for a in proto_child_table)
     newbc.scoping = scoping
-    newbc.block_input_order = block_lower
+    newbc.block_input_order = []
+    for one_name in block_lower:
+        if one_name in newbc.lower_keys and one_name not in newbc.block_input_order:
+            newbc.block_input_order.append(one_name)
     return newbc
 
 
-- 
2.43.0


From 649b660385723a0894e09428bcef0f1539a1e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 045/154] fix: renaming a save frame does not change its
 position in the output

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 0a1576d..de74918 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -438,7 +438,7 @@ def get_children(self,blockname,include_parent=False,scoping='dictionary'):
 
 def get_immediate_children(self,parentname):
     """Get the next level of children of the given block as a list, without nested levels"""
-    child_handles = [a for a in self.child_table.items() if a[1].parent == parentname.lower()]
+    child_handles = [(a,self.child_table[a]) for a in self.block_input_order if self.child_table[a].parent == parentname.lower()]
     return child_handles
 
 # This takes time
-- 
2.43.0


From 9bf88955cefd8b1c0177f1f543443faddce98a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 046/154] fix: set_parent refuses to make a block its own
 ancestor

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index de74918..57bffc7 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -466,6 +466,8 @@ def set_parent(self,parentname,childname):
         raise KeyError('Parent block %s does not exist' % parentname)
     if childname.lower() not in self.lower_keys:
         raise KeyError('Child block %s does not exist' % childname)
+    if parentname.lower() == childname.lower() or self.is_child_of_parent(childname,parentname):
+        raise StarError('Block %s can not be its own parent' % childname)
     old_entry = self.child_table[childname.lower()]
     self.child_table[childname.lower()]=self.PC(old_entry.block_id,
            parentname.lower())
-- 
2.43.0


From d2b54201cbe4bd68ad0685c40ea363a16e4b87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 047/154] fix: case is not significant in the block order given
 to WriteOut

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 57bffc7..ee5ee57 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -871,6 +871,8 @@ initialising the file.
         all_names = list(self.child_table.keys())   #i.e. lower case
         if blockorder is None:
             blockorder = self.block_input_order
+        else:
+            blockorder = [a.lower() for a in blockorder]
         top_block_names = [(a,self.child_table[a].block_id) for a in blockorder if self.child_table[a].parent is None]
         for blockref,blockname in top_block_names:
             # print('Writing %s, ' % blockname + repr(self[blockref]))
-- 
2.43.0


From d2574f0f8f1346ad821bc6f8a28678f193aa9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 048/154] fix: NewBlock refuses a parent that does not exist
 instead of leaving a block without a place

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index ee5ee57..52dbc3d 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -541,6 +541,8 @@ def NewBlock(self,blockname,blockcontents=None,fix=True,parent=None):
         blockcontents.setmaxnamelength(75)
     if len(blockname)>75:
              raise StarError('Blockname %s is longer than 75 characters' % blockname)
+    if parent is not None and parent.lower() not in self.lower_keys:
+        raise StarError('Parent block %s does not exist for child %s' % (parent,blockname))
     if fix:
         newblockname = re.sub('[  \t]','_',blockname)
     else: newblockname = blockname
-- 
2.43.0


From b260654051c09e9c608937301e8189622b3b4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 049/154] fix: NewBlock does not replace a block by its own
 descendant's child

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 52dbc3d..d2cfd42 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -562,6 +562,8 @@ def NewBlock(self,blockname,blockcontents=None,fix=True,parent=None):
            else:
               raise StarError( "Attempt to replace existing block " + blockname)
         else:
+           if parent is not None and (parent.lower() == new_lowerbn or self.is_child_of_parent(new_lowerbn,parent)):
+               raise StarError('Parent block %s would be removed with block %s' % (parent,blockname))
            del self[new_lowerbn]
     self.dictionary.update({new_lowerbn:blockcontents})
     self.lower_keys.add(new_lowerbn)
-- 
2.43.0


From fa9c97d362999cd259dad4a047812f20392601db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 050/154] fix: merging blocks is all or nothing in strict mode
 and leaves match attributes and loops intact in replace mode

---
 src/StarFile.nw | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index d2cfd42..546edee 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3227,33 +3227,21 @@ not be added, but simply replaced.
 <<Merge with another block>>=
 def merge(self,new_block,mode="strict",match_att=[],match_function=None,
                rel_keys = []):
-    if mode == 'strict':
-       for key in new_block.keys():
-           if key in self and key not in match_att:
-              raise StarError( "Identical keys %s in strict merge mode" % key)
-           elif key not in match_att:           #a new dataname
-               self[key] = new_block[key]
-       # we get here if there are no keys in common, so we can now copy
-       # the loops and not worry about overlaps
-       for one_loop in new_block.loops.values():
-           self.CreateLoop(one_loop)
-       # we have lost case information
-       self.true_case.update(new_block.true_case)
-    elif mode == 'replace':
-       newkeys = list(new_block.keys())
-       for ma in match_att:
-          try:
-               newkeys.remove(ma)        #don't touch the special ones
-          except ValueError:
-               pass
-       for key in new_block.keys():
-              if isinstance(key,unicode):
-                  self[key] = new_block[key]
+    if mode in ('strict','replace'):
+       newkeys = [a for a in new_block.keys() if a not in match_att]  #don't touch the special ones
+       if mode == 'strict':
+           for key in newkeys:
+              if key in self:
+                  raise StarError( "Identical keys %s in strict merge mode" % key)
+       for key in newkeys:
+           if new_block.FindLoop(key) < 0 and self.FindLoop(key) >= 0:
+               del self[key]      #no longer part of our loop
+           self[new_block.true_case[key]] = new_block[key]
        # creating the loop will remove items from other loops
        for one_loop in new_block.loops.values():
-           self.CreateLoop(one_loop)
-       # we have lost case information
-       self.true_case.update(new_block.true_case)
+           columns = [a for a in one_loop if a in newkeys]
+           if len(columns)>0:
+               self.CreateLoop(columns)
     elif mode == 'overlay':
        print('Overlay mode, current overwrite is %s' % self.overwrite)
        raise StarError('Overlay block merge mode not implemented')
-- 
2.43.0


From 515362ae0362fd04fa88ab6a13d065b3958a5e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 051/154] fix: replace mode works when merging files, and a
 refused merge changes nothing

---
 src/StarFile.nw | 60 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 546edee..17f6fcd 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -754,19 +754,26 @@ def merge(self,new_bc,mode=None,parent=None,single_block=[],
                                                match_att=match_att,
                                                match_function=match_function)
         return None
-    base_keys = [a[1].block_id for a in self.child_table.items()]
-    block_to_item = base_keys   #default
-    new_keys = [a[1].block_id for a in new_bc.child_table.items()]    #get list of incoming blocks
+    if mode not in ('strict','replace','overlay'):
+        raise StarError( "Merge called with unknown mode %s" % mode)
+    base_keys = list(self.child_table.keys())
+    block_to_item = base_keys[:]   #default
     if match_att:
         #make a blockname -> item name map
         if match_function:
-            block_to_item = [match_function(self[a]) for a in self.keys()]
+            block_to_item = [match_function(self[a]) for a in base_keys]
         else:
-            block_to_item = [self[a].get(match_att[0],None) for a in self.keys()]
+            block_to_item = [self[a].get(match_att[0],None) for a in base_keys]
         #print `block_to_item`
-    for key in new_keys:        #run over incoming blocknames
-        if key == idblock: continue    #skip dictionary id
-        basekey = key           #default value
+    # find our name for each incoming block; parents come before their children
+    new_names = {}
+    new_keys = [a[0] for a in new_bc.get_roots()]
+    for key in new_keys: new_keys.extend([a[0] for a in new_bc.get_immediate_children(key)])
+    for key in new_keys[:]:        #run over incoming blocknames
+        basekey = new_bc.child_table[key].block_id   #default value
+        if basekey == idblock:     #skip dictionary id
+            new_keys.remove(key)
+            continue
         if len(match_att)>0:
            attval = new_bc[key].get(match_att[0],0)  #0 if ignoring matching
         else:
@@ -777,21 +784,32 @@ def merge(self,new_bc,mode=None,parent=None,single_block=[],
             if attval == thisatt or \
                (isinstance(thisatt,list) and attval in thisatt):
                   basekey = base_keys.pop(ii)
-                  block_to_item.remove(thisatt)
+                  block_to_item.pop(ii)
                   break
-        if not basekey in self or mode=="replace":
-            new_parent = new_bc.get_parent(key)
-            if parent is not None and new_parent is None:
-               new_parent = parent
+        new_names[key] = basekey
+    # conflicts are found before anything is changed
+    for key in new_keys:
+        if new_names[key].lower() not in self.lower_keys: continue
+        if mode=="strict" and (self.get_parent(new_names[key]) is None) == (new_bc.get_parent(key) is None and parent is None):
+            raise StarError( "In strict merge mode: block %s in old and block %s in new files" % (new_names[key],key))
+        elif mode=="overlay":
+            # print "Merging block %s with %s" % (basekey,key)
+            self[new_names[key]].merge(new_bc[key],mode,match_att=match_att)
+    for key in new_keys:
+        new_parent = new_bc.get_parent(key)
+        if new_parent is not None:
+            new_parent = new_names.get(new_parent,new_parent)
+        elif parent is not None:
+            new_parent = parent
+        basekey = new_names[key]
+        if mode=="replace" and basekey.lower() in self.lower_keys:
+            self.dictionary[basekey.lower()] = new_bc[key]   #position and children are kept
+            self[basekey].set_grammar(self.grammar)
+            self[basekey].set_characterset(self.characterset)
+            self[basekey].formatting_hints = self.master_template
+            if new_parent is not None: self.set_parent(new_parent,basekey)
+        elif mode!="overlay" or basekey.lower() not in self.lower_keys:
             self.NewBlock(basekey,new_bc[key],parent=new_parent)   #add the block
-        else:
-            if mode=="strict":
-                raise StarError( "In strict merge mode: block %s in old and block %s in new files" % (basekey,key))
-            elif mode=="overlay":
-                # print "Merging block %s with %s" % (basekey,key)
-                self[basekey].merge(new_bc[key],mode,match_att=match_att)
-            else:
-                raise StarError( "Merge called with unknown mode %s" % mode)
 
 @ Checking conformance. CIF and STAR standards differ in allowing
 nested loops and maximum data name lengths.  Although the CIF 1.1
-- 
2.43.0


From 65a88726397adc64881b78da962d5314d49b79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 052/154] fix: merged save frames are only visible in
 dictionary scope, and replaced blocks are listed once

---
 src/StarFile.nw | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 17f6fcd..71100db 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -731,16 +731,20 @@ def merge_fast(self,new_bc,parent=None):
                 new_bc._rekey(dup_key,start_key)
               else:
                 raise StarError("In strict merge mode:duplicate keys %s" % dup_key)
+    added_keys = new_bc.lower_keys.difference(self.lower_keys)   #others are replaced
     self.dictionary.update(new_bc.dictionary)
     self.lower_keys.update(new_bc.lower_keys)
-    self.visible_keys += (list(new_bc.lower_keys))
-    self.block_input_order += new_bc.block_input_order
+    self.block_input_order += [a for a in new_bc.block_input_order if a in added_keys]
     #print('Block input order now:' + repr(self.block_input_order))
     self.child_table.update(new_bc.child_table)
     if parent_name is not None:     #redo the child_table entries
           reparent_list = [(a[0],a[1].block_id) for a in new_bc.child_table.items() if a[1].parent==None]
           reparent_dict = [(a[0],self.PC(a[1],parent_name.lower())) for a in reparent_list]
           self.child_table.update(dict(reparent_dict))
+    if self.scoping == 'dictionary':
+        self.visible_keys += list(added_keys)
+    else:
+        self.scoping = self.scoping   #reset visibility
 
 def merge(self,new_bc,mode=None,parent=None,single_block=[],
                idblock="",match_att=[],match_function=None):
-- 
2.43.0


From 7d8d187c12a32e94aba28d8167d557e610ae145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 053/154] fix: template names are matched literally and as
 whole names, and triple double quotes in template loops are recognised

---
 src/StarFile.nw | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 71100db..fa69fb1 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3082,7 +3082,7 @@ def process_template(template_file):
         if not isinstance(item,int):    #not nested
             hint_dict = {"dataname":item}
             # find the line in the file
-            start_pos = re.search("(^[ \t]*(?P<name>" + item + ")[ \t\n]+)(?P<spec>([\\S]+)|(^;))",template_string,re.I|re.M)
+            start_pos = re.search("(^[ \t]*(?P<name>" + re.escape(item) + ")[ \t\n]+)(?P<spec>([\\S]+)|(^;))",template_string,re.I|re.M)
             if start_pos.group("spec") != None:
                 spec_pos = start_pos.start("spec")-start_pos.start(0)
                 spec_char = template_string[start_pos.start("spec"):start_pos.start("spec")+3]
@@ -3111,20 +3111,20 @@ def process_template(template_file):
             total_items = len(template_as_cif.loops[item])
             testname = testnames[0]
             #find the loop spec line in the file
-            loop_regex = "(^[ \t]*(?P<loop>loop_)[ \t\n\r]+(?P<name>" + testname + ")([ \t\n\r]+_[\\S]+){%d}[ \t]*$(?P<packet>(.(?!_loop|_[\\S]+))*))" % (total_items - 1)
+            loop_regex = "(^[ \t]*(?P<loop>loop_)[ \t\n\r]+(?P<name>" + re.escape(testname) + ")([ \t\n\r]+_[\\S]+){%d}[ \t]*$(?P<packet>(.(?!_loop|_[\\S]+))*))" % (total_items - 1)
             loop_line = re.search(loop_regex,template_string,re.I|re.M|re.S)
             loop_so_far = loop_line.end()
             packet_text = loop_line.group('packet')
             loop_indent = loop_line.start('loop') - loop_line.start(0)
             form_hints.append({"dataname":'loop','name_pos':loop_indent})
-            packet_regex = "[ \t]*(?P<all>(?P<sqqq>'''([^\n\r\f']*)''')|(?P<sq>'([^\n\r\f']*)'+)|(?P<dq>\"([^\n\r\"]*)\"+)|(?P<none>[^\\s]+))"
+            packet_regex = "[ \t]*(?P<all>(?P<sqqq>'''([^\n\r\f']*)''')|(?P<dqqq>\"\"\"([^\n\r\f\"]*)\"\"\")|(?P<sq>'([^\n\r\f']*)'+)|(?P<dq>\"([^\n\r\"]*)\"+)|(?P<none>[^\\s]+))"
             packet_pos = re.finditer(packet_regex,packet_text)
             line_end_pos = re.finditer("^",packet_text,re.M)
             next_end = next(line_end_pos).end()
             last_end = next_end
             for loopname in testnames:
                 #find the name in the file for name pos
-                name_regex = "(^[ \t]*(?P<name>" + loopname + "))"
+                name_regex = "(^[ \t]*(?P<name>" + re.escape(loopname) + ")(?![\\S]))"
                 name_match = re.search(name_regex,template_string,re.I|re.M|re.S)
                 loop_name_indent = name_match.start('name')-name_match.start(0)
                 hint_dict = {"dataname":loopname,"name_pos":loop_name_indent}
@@ -3142,6 +3142,8 @@ def process_template(template_file):
                 if thismatch.group('none') is None:
                     if thismatch.group('sqqq') is not None:
                         hint_dict.update({'delimiter':"'''"})
+                    elif thismatch.group('dqqq') is not None:
+                        hint_dict.update({'delimiter':'"""'})
                     else:
                         hint_dict.update({'delimiter':thismatch.groups()[0][0]})
                 hint_dict.update({'column':col_pos})
-- 
2.43.0


From 14ea87a3c34aea6b16708f47784028a74fb957e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 054/154] fix: re-wrapping text as a template requests does not
 split words

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index fa69fb1..6b45f6c 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1535,7 +1535,7 @@ def __init__(self,data = (), maxoutlength=2048, wraplength=80, overwrite=True,
     self.overwrite = overwrite
     self.string_delimiters = ["'",'"',"\n;"]   #universal CIF set
     self.list_delimiter = "  "                 #CIF2 default
-    self.wrapper = textwrap.TextWrapper()
+    self.wrapper = textwrap.TextWrapper(break_long_words=False,break_on_hyphens=False)  #words are data
     if isinstance(data,(tuple,list)):
         for item in data:
             self.AddLoopItem(item)
-- 
2.43.0


From c10411f551e703265aa41568856bbe606a7f96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 055/154] fix: an empty data name is refused with a StarError

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 6b45f6c..c5f62d8 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1848,7 +1848,7 @@ require any checking, but we do still need to check name length.
 def check_data_name(self,dataname,maxlength=-1):
     if maxlength > 0:
         self.check_name_length(dataname,maxlength)
-    if dataname[0]!='_':
+    if dataname[:1]!='_':
         raise StarError( 'Dataname ' + dataname + ' does not begin with _')
     if self.characterset=='ascii':
         if len ([a for a in dataname if ord(a) < 33 or ord(a) > 126]) > 0:
-- 
2.43.0


From 02764da5c62a45e8b6e1fdea70c48acee09dafa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 056/154] fix: only the last two code points of a plane are
 refused in data names

---
 src/StarFile.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index c5f62d8..8c7c092 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1865,7 +1865,7 @@ def check_data_name(self,dataname,maxlength=-1):
             raise StarError( 'Dataname ' + dataname + ' contains unsupported characters (between U+FDD0 and U+FDEF)')
         if len ([a for a in dataname if ord(a) == 0xFFFE or ord(a) == 0xFFFF]) > 0:
             raise StarError( 'Dataname ' + dataname + ' contains unsupported characters (U+FFFE and/or U+FFFF)')
-        if len ([a for a in dataname if ord(a) > 0x10000 and (ord(a) & 0xE == 0xE)]) > 0:
+        if len ([a for a in dataname if ord(a) >= 0x10000 and (ord(a) & 0xFFFE == 0xFFFE)]) > 0:
             print('%s fails' % dataname)
             for a in dataname: print('%x' % ord(a),end="")
             print()
-- 
2.43.0


From 3daba90bf77d12328db4d1f717dcb33fa0e29c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 057/154] fix: characters are checked at every level of list
 and table values

---
 src/StarFile.nw | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 8c7c092..047debb 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1878,11 +1878,12 @@ def check_name_length(self,dataname,maxlength):
 
 <<Check data item for STAR conformance>>=
 def check_item_value(self,item):
-    test_item = item
-    if not isinstance(item,(list,dict,tuple)):
-       test_item = [item]         #single item list
     def check_one (it):
-        if isinstance(it,unicode):
+        if isinstance(it,dict):
+            [check_one(a) for kv in it.items() for a in kv]
+        elif isinstance(it,(list,tuple)):
+            [check_one(a) for a in it]
+        elif isinstance(it,unicode):
             if it=='': return
             me = self.char_check.match(it)
             if not me:
@@ -1892,7 +1893,7 @@ def check_item_value(self,item):
                 if me.span() != (0,len(it)):
                     print("Fail value check, match only %d-%d in string %s" % (me.span()[0],me.span()[1],repr( it )))
                     raise StarError('Data item "' + repr( it ) +  u'"... contains forbidden characters')
-    [check_one(a) for a in test_item]
+    check_one(item)
 
 @ Regularising data.  We want the copy.deepcopy operation to work, so
 we cannot have any arrays passed into the master dictionary.  We make
-- 
2.43.0


From 5a58cced66512a092ed74627525fdb6dec329882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 058/154] fix: adding several items at once is all or nothing

---
 src/CifFile_module.nw |  8 +++---
 src/StarFile.nw       | 57 ++++++++++++++++++++++++++++++-------------
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 8476a79..abdfea9 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -301,9 +301,11 @@ def AddCifItem(self,data):
         return
     # otherwise, we loop over the datanames
     keyvals = zip(data[0][0],[list(a) for a in data[1][0]])
-    [self.AddSingleCifItem(a,b) for a,b in keyvals]
-    # and create the loop
-    self.CreateLoop(data[0][0])
+    def additions():
+        [self.AddSingleCifItem(a,b) for a,b in keyvals]
+        # and create the loop
+        self.CreateLoop(data[0][0])
+    self._all_or_nothing(additions)
 
 def AddSingleCifItem(self,key,value):
     """*Deprecated*. Use `AddItem` instead"""
diff --git a/src/StarFile.nw b/src/StarFile.nw
index 047debb..5d75241 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1702,8 +1702,10 @@ def copy(self):
     return StarBlock(self,characterset=self.characterset)
 
 def update(self,adict):
-    for key in adict.keys():
-        self.AddItem(key,adict[key])
+    def additions():
+        for key in adict.keys():
+            self.AddItem(key,adict[key])
+    self._all_or_nothing(additions)
 
 @ This method is used when printing out, which is why it takes both
 names and numbers.
@@ -1804,6 +1806,21 @@ def AddItem(self,key,value,precheck=False):
     else:
         self.block.update({lower_key:[empty_val,regval]})
 
+@  Operations that add several items store all of them or none. This method is
+passed a routine that carries out the additions, and restores the previous
+contents if that routine does not succeed.
+
+<<Add a data item>>=
+def _all_or_nothing(self,additions):
+    """Call `additions`, leaving the block contents unchanged if an error is raised"""
+    saved = (self.block.copy(),self.true_case.copy(),self.item_order[:],
+             dict([(k,self.loops[k][:]) for k in self.loops]))
+    try:
+        additions()
+    except Exception:
+        self.block,self.true_case,self.item_order,self.loops = saved
+        raise
+
 @  This is the original routine for adding a loop item, left in for consistency
 with old versions.  Do not use.
 
@@ -1823,9 +1840,11 @@ def AddLoopItem(self,incomingdata,precheck=False,maxlength=-1):
        lengths = [len(c) if isinstance(c,list) and not isinstance(c,StarList) else -1 for c in columns]
        if len(columns) != len(incomingdata[0]) or len(set(lengths)) > 1:
            raise ValueError('Request to loop datanames %s with different lengths: %s' % (repr( incomingdata[0] ),repr( lengths )))
-       for key,value in keyvallist:
-           self.AddItem(key,value)
-       self.CreateLoop(incomingdata[0])
+       def additions():
+           for key,value in keyvallist:
+               self.AddItem(key,value)
+           self.CreateLoop(incomingdata[0])
+       self._all_or_nothing(additions)
     elif not isinstance(incomingdata[0],(unicode,str)):
          raise TypeError('Star datanames are strings only (got %s)' % repr( incomingdata[0] ))
     else:
@@ -2253,9 +2272,11 @@ def AddToLoop(self,dataname,loopdata):
     for one_name in loopdata:     #do not store what can not be added
         if one_name.lower() not in self.GetLoopNames(dataname):
             self.check_column_length(dataname,one_name,loopdata[one_name])
-    self.update(loopdata)
-    for one_name in loopdata:
-        self.AddLoopName(dataname,one_name)
+    def additions():
+        self.update(loopdata)
+        for one_name in loopdata:
+            self.AddLoopName(dataname,one_name)
+    self._all_or_nothing(additions)
 
 @ The draft DDLm specification uses square brackets next to a
 pre-specified identifier to mean "the packet of this category for
@@ -3258,15 +3279,17 @@ def merge(self,new_block,mode="strict",match_att=[],match_function=None,
            for key in newkeys:
               if key in self:
                   raise StarError( "Identical keys %s in strict merge mode" % key)
-       for key in newkeys:
-           if new_block.FindLoop(key) < 0 and self.FindLoop(key) >= 0:
-               del self[key]      #no longer part of our loop
-           self[new_block.true_case[key]] = new_block[key]
-       # creating the loop will remove items from other loops
-       for one_loop in new_block.loops.values():
-           columns = [a for a in one_loop if a in newkeys]
-           if len(columns)>0:
-               self.CreateLoop(columns)
+       def additions():
+           for key in newkeys:
+               if new_block.FindLoop(key) < 0 and self.FindLoop(key) >= 0:
+                   del self[key]      #no longer part of our loop
+               self[new_block.true_case[key]] = new_block[key]
+           # creating the loop will remove items from other loops
+           for one_loop in new_block.loops.values():
+               columns = [a for a in one_loop if a in newkeys]
+               if len(columns)>0:
+                   self.CreateLoop(columns)
+       self._all_or_nothing(additions)
     elif mode == 'overlay':
        print('Overlay mode, current overwrite is %s' % self.overwrite)
        raise StarError('Overlay block merge mode not implemented')
-- 
2.43.0


From 6c911591a613701fab6438bbae00fd21712f0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 059/154] fix: merging does not replace loop columns of a
 locked block

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 5d75241..32bca9d 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -3281,6 +3281,8 @@ def merge(self,new_block,mode="strict",match_att=[],match_function=None,
                   raise StarError( "Identical keys %s in strict merge mode" % key)
        def additions():
            for key in newkeys:
+               if key in self and not self.overwrite:
+                   raise StarError( 'Attempt to insert duplicate item name %s' % key)
                if new_block.FindLoop(key) < 0 and self.FindLoop(key) >= 0:
                    del self[key]      #no longer part of our loop
                self[new_block.true_case[key]] = new_block[key]
-- 
2.43.0


From f95ce997fdae73e3e4471fffe0491f53ad5171d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 060/154] fix: a dREL text that can not be parsed does not
 disturb later ones

---
 src/drel/drel_ast_yacc.py | 2 ++
 src/drel/drel_lex.py      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/drel/drel_ast_yacc.py b/src/drel/drel_ast_yacc.py
index c3204f6..b74ae7d 100644
--- a/src/drel/drel_ast_yacc.py
+++ b/src/drel/drel_ast_yacc.py
@@ -569,6 +569,8 @@ def p_empty(p):
     pass
 
 def p_error(p):
+    # the next text must not be read as if still inside parentheses
+    (lexer if p is None else p.lexer).begin('INITIAL')
     try:
         print('Syntax error at position %d, line %d token %s, value %s' % (p.lexpos,p.lineno,p.type,p.value))
         print('Surrounding text: ' + p.lexer.lexdata[max(p.lexpos - 100,0): p.lexpos] + "*" + \
diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index b0855ee..b513830 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -61,6 +61,7 @@ t_INITIAL_ignore = ' \t'
 t_paren_ignore = ' \t\n'
 
 def t_error(t):
+    t.lexer.begin('INITIAL')   # the text is abandoned, also inside parentheses
     print('Illegal character %s' % repr(t.value[0]))
 
 t_POWER = r'\*\*'
-- 
2.43.0


From 52939dd4b8816d21da8d3f4e5103bbca6b3b746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 061/154] fix: dREL strings may contain escaped quotes and end
 at the first closing delimiter

---
 src/drel/drel_lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index b513830..0d55c96 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -152,12 +152,12 @@ def t_STRPREFIX(t):
 
 # try longstring first as otherwise the '' will match a shortstring
 def t_LONGSTRING(t):
-    r"('''([^\\]|(\\.))*''')|(\"\"\"([^\\]|(\\.))*\"\"\")"
+    r"('''([^\\]|(\\.))*?''')|(\"\"\"([^\\]|(\\.))*?\"\"\")"
     return t
 
 
 def t_SHORTSTRING(t):
-    r"('([^'\n]|(\\.))*')|(\"([^\"\n]|(\\.))*\")"
+    r"('([^'\\\n]|(\\.))*')|(\"([^\"\\\n]|(\\.))*\")"
     return t
 
 # special to avoid any ambiguity
-- 
2.43.0


From f8fc0405fbeded1f0b308110e3aff4222274940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 062/154] fix: dREL else may be followed by a variable whose
 name starts with if

---
 src/drel/drel_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index 0d55c96..a0fd528 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -162,7 +162,7 @@ def t_SHORTSTRING(t):
 
 # special to avoid any ambiguity
 def t_ELSEIF(t):
-    r"[Ee][Ll][Ss][Ee]\s+[Ii][Ff]"
+    r"[Ee][Ll][Ss][Ee]\s+[Ii][Ff](?![a-zA-Z0-9_$])"
     return t
 
 reserved = {
-- 
2.43.0


From 696444a284500e2c678384ef2e5ee8db5443c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 063/154] fix: dREL integers may have leading zeros

---
 src/drel/drel_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_lex.py b/src/drel/drel_lex.py
index a0fd528..cf9c7ae 100644
--- a/src/drel/drel_lex.py
+++ b/src/drel/drel_lex.py
@@ -141,7 +141,7 @@ def t_HEXINT(t):
 def t_INTEGER(t):
     r'[0-9]+'
     try:
-        value = int(t.value)
+        t.value = repr(int(t.value))
     except ValueError:
         print('Incorrect integer value %s' % t.value)
     return t
-- 
2.43.0


From 7eddf0ae670f30f35c00f4c94fcc1d0244cb5422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 064/154] fix: dREL lists may appear in conditions and other
 places besides assignments

---
 src/drel/py_from_ast.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 104e871..73e156b 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -306,13 +306,13 @@ mentioned so that we can create a dependency tree.
     elif node_type == "LIST":
         if len(in_node)==1:  #empty list
            return "StarList([])"
-        if special_info["rhs"] == True:
+        if special_info["rhs"] != False:   #only bare as assignment target
             outstring = "StarList(["
         else:
             outstring = ""
         for list_elem in in_node[1:]:
             outstring = outstring + traverse_ast(list_elem) + ","
-        if special_info["rhs"] == True:
+        if special_info["rhs"] != False:
             return outstring[:-1] + "])"
         else:
             return outstring[:-1]
-- 
2.43.0


From f6f195e5b7adf536042f8e835be0cdc0f7c5c3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 065/154] fix: empty dREL tables and parentheses can be
 evaluated

---
 src/drel/py_from_ast.nw | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 73e156b..8297365 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -318,7 +318,7 @@ mentioned so that we can create a dependency tree.
             return outstring[:-1]
     elif node_type == "TABLE":
         if len(in_node)==1:
-            return "StarTable({})"
+            return "{}"
         else:
             outstring = "{"
         for table_elem in in_node[1:]:
@@ -691,6 +691,8 @@ Ultimately we end up with a list of statements.
             outstring += traverse_ast(one_expr) + "\n"
         return outstring
     elif node_type == "GROUP":
+        if len(in_node)==1:  #nothing inside
+            return "()"
         outstring = "("
         for expression in in_node[1]:
              outstring = outstring + traverse_ast(expression) + ","
-- 
2.43.0


From e5fc50b2f492131c974a443a7fd75d58e2f5d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 066/154] fix: dREL slices without a start, with a step or in
 several dimensions

---
 src/drel/drel_ast_yacc.py | 10 +++++++---
 src/drel/py_from_ast.nw   |  6 +++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/drel/drel_ast_yacc.py b/src/drel/drel_ast_yacc.py
index b74ae7d..58ccde7 100644
--- a/src/drel/drel_ast_yacc.py
+++ b/src/drel/drel_ast_yacc.py
@@ -353,14 +353,15 @@ def p_short_slice(p):
     if len(p) == 2: p[0] = []
     if len(p) == 4: p[0] = [p[1],p[3]]
     if len(p) == 3 and p[1] == ":":
-        p[0] = [0,p[2]]
+        p[0] = [["LITERAL","0"],p[2]]
     if len(p) == 3 and p[2] == ":":
         p[0] = [p[1]]
 
 def p_long_slice(p):
     '''long_slice : short_slice ":" expression '''
     if len(p) == 4:
-        p[0] = p[1] + [p[3]]
+        # start and finish must be mentioned before the step
+        p[0] = (p[1] + ["",""][len(p[1]):]) + [p[3]]
     else:
         p[0] = p[1]
 
@@ -375,7 +376,10 @@ def p_slice_list(p):
 def p_slice_item(p):
     ''' slice_item : expression
                    | proper_slice '''
-    p[0] = p[1]
+    if p[1][0] == "EXPR":
+        p[0] = p[1]
+    else:               # a list holding a single slice
+        p[0] = p[1][0]
 
 def p_call(p):
     '''call : ID OPEN_PAREN CLOSE_PAREN
diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 8297365..376d570 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -331,10 +331,10 @@ mentioned so that we can create a dependency tree.
         outstring = traverse_ast(in_node[1]) + "["
         slice_list = in_node[2]
         for one_slice in slice_list:
-            if one_slice[0] == "EXPR":   #not a slice as such
-                outstring += traverse_ast(one_slice)
-            elif len(one_slice) == 0:
+            if len(one_slice) == 0:
                 outstring += ":"
+            elif one_slice[0] == "EXPR":   #not a slice as such
+                outstring += traverse_ast(one_slice)
             elif len(one_slice) >0:    # at least start
                 outstring += traverse_ast(one_slice[0]) + ":"
                 if len(one_slice) >1:    #start,finish only
-- 
2.43.0


From 23b213b05adc585813520f41b1d8b29ce411d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 067/154] fix: dREL operators keep their grouping when
 translated

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 376d570..1a141b2 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -770,7 +770,7 @@ dREL and python, so that the AST contains the textual form of the operator.
         first_arg = traverse_ast(in_node[2])
         second_arg = traverse_ast(in_node[3])
         if op is not None:    #simple operation
-            outstring = first_arg + op + second_arg
+            outstring = "(" + first_arg + op + second_arg + ")"
         else:
             outstring = fix_mathops(in_node[1],first_arg,second_arg)
         return outstring
-- 
2.43.0


From b06f9f9c4ab762c27981d88af64390b35c3ab149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 068/154] fix: dREL calculated integers may be raised to
 negative powers

---
 src/drel/drel_runtime.nw | 8 ++++++++
 src/drel/py_from_ast.nw  | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index ce693f4..08b9891 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -139,6 +139,14 @@ def drel_dot(first_arg,second_arg):
             return result
     return fa * sa
 
+def drel_power(first_arg,second_arg):
+    """Raise to a power. Numpy integers refuse negative powers"""
+    if isinstance(first_arg,numpy.integer):
+        first_arg = int(first_arg)
+    if isinstance(second_arg,numpy.integer):
+        second_arg = int(second_arg)
+    return first_arg**second_arg
+
 def drel_add(first_arg,second_arg):
     """Separate string addition from the rest"""
     if isinstance(first_arg,(unicode,str)) and isinstance(second_arg,(unicode,str)):
diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 1a141b2..f456273 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -792,7 +792,7 @@ mathop_table = {"+":None, "-":None, "<":"<", "*":None, "/":None,
                 ">":">", "<=":"<=", ">=":">=", "!=":"!=",
                 "or":" or ", "and":" and ",
                 "==":"==", "in":" in ", "not in":" not in ",
-                "^":None,"**":"**"}
+                "^":None,"**":None}
 
 aug_assign_table = {"++=":"drel_runtime.aug_append",
                     "+=":"drel_runtime.aug_add",
@@ -871,6 +871,8 @@ def fix_mathops(op,first_arg,second_arg):
     """Return a string that will carry out the requested operation"""
     if op == "^":
         return "numpy.cross(%s,%s)" % (first_arg,second_arg)
+    elif op == "**":
+        return "drel_runtime.drel_power(%s,%s)" % (first_arg,second_arg)
     elif op == "*":  #could be matrix multiplication
         return "drel_runtime.drel_dot(%s,%s)" % (first_arg,second_arg)
     elif op == "+":
-- 
2.43.0


From 2e2b9a95f55d8ed3d17590a3eb6349f249540bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 069/154] fix: dREL product of a vector and a number is a
 vector

---
 src/drel/drel_runtime.nw | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index 08b9891..c777ff4 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -137,6 +137,11 @@ def drel_dot(first_arg,second_arg):
             return numpy.array(result).squeeze()
         else:
             return result
+    # a vector times a scalar remains a vector
+    if first_matrix and numpy.ndim(first_arg) == 1:
+        fa = numpy.array(first_arg)
+    elif second_matrix and numpy.ndim(second_arg) == 1:
+        sa = numpy.array(second_arg)
     return fa * sa
 
 def drel_power(first_arg,second_arg):
-- 
2.43.0


From 84f47ef9225808997669dc5fb69354538bf3583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 070/154] fix: dREL do loops that count down include the final
 value

---
 src/drel/drel_runtime.nw | 6 ++++++
 src/drel/py_from_ast.nw  | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index c777ff4..aa7ce1c 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -144,6 +144,12 @@ def drel_dot(first_arg,second_arg):
         sa = numpy.array(second_arg)
     return fa * sa
 
+def drel_range(start,finish,step):
+    """Range of integers that includes the final value"""
+    if step > 0:
+        return range(start,finish+1,step)
+    return range(start,finish-1,step)
+
 def drel_power(first_arg,second_arg):
     """Raise to a power. Numpy integers refuse negative powers"""
     if isinstance(first_arg,numpy.integer):
diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index f456273..0d88d65 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -533,10 +533,10 @@ are provided as keywords to the
 # dREL for statements include the final value, whereas a python range will include
 # everything up to the final number
     elif node_type == "DO":    #DO ID = start, finish, incr, suite
-        outstring = "for " + in_node[1] + " in range(" + traverse_ast(in_node[2]) + ","
+        outstring = "for " + in_node[1] + " in drel_runtime.drel_range(" + traverse_ast(in_node[2]) + ","
         finish = traverse_ast(in_node[3])
         increment = traverse_ast(in_node[4])
-        outstring = outstring + finish + "+1" + "," + increment
+        outstring = outstring + finish + "," + increment
         outstring = outstring + "):"
         suite = add_indent("\n"+traverse_ast(in_node[5]))
         return outstring + suite
-- 
2.43.0


From af3c8db24770e7899fe00876c6384be20aebe22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 071/154] fix: dREL += and -= accept calculated numbers and
 vectors

---
 src/drel/drel_runtime.nw | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index aa7ce1c..4b9a84e 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -49,22 +49,16 @@ def aug_add(current,extra):
     """Sum the contents of extra to current"""
     have_list = isinstance(current,list)
     if have_list:
-        if isinstance(extra, (float,int)):
-           # requires numpy
-           return numpy.array(current) + extra
-        elif isinstance(extra, list):
-           return numpy.array(current) + numpy.array(extra)
+        # requires numpy
+        return numpy.array(current) + numpy.array(extra)
     else:
         return current + extra
 
 def aug_sub(current,extra):
    have_list = isinstance(current,(list,numpy.ndarray))
    if have_list:
-        if isinstance(extra, (float,int)):
-           # requires numpy
-           return numpy.array(current) - extra
-        elif isinstance(extra, (list,numpy.ndarray)):
-           return numpy.array(current) - numpy.array(extra)
+        # requires numpy
+        return numpy.array(current) - numpy.array(extra)
    else:
         return current - extra
 
-- 
2.43.0


From c71e1bff20984062108ebbd2df8212e914aa2870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 072/154] fix: dREL --= leaves other holders of the list
 unchanged

---
 src/drel/drel_runtime.nw | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index 4b9a84e..80c35b6 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -68,9 +68,9 @@ def aug_remove(current,extra):
     have_list = isinstance(current,list)
     if have_list:
         if extra in current:
-            # not efficient as we modify in place here
-            current.remove(extra)
-            return current
+            newlist = current[:]
+            newlist.remove(extra)
+            return newlist
         else:
             print('Removal Warning: %s not in %s' % (repr(extra),repr(current)))
             return current
-- 
2.43.0


From 80584e8aec76d5477e8c654cb52f426e6a773dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 073/154] fix: dREL ++= can append numbers and lists to an
 array

---
 src/drel/drel_runtime.nw | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index 80c35b6..da79090 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -35,6 +35,7 @@ def aug_append(current,extra):
             newlist.append(extra)
             return newlist
     elif isinstance(current,numpy.ndarray):
+        extra = numpy.asarray(extra)
         if current.ndim == extra.ndim + 1:
             extra = numpy.expand_dims(extra,axis=0)
         elif current.ndim == extra.ndim:
-- 
2.43.0


From 7100f7cb98782ce31613096eb015dc72ad17870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 074/154] fix: dREL Sort returns the sorted list

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 0d88d65..a26eab0 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -859,7 +859,7 @@ def get_function_name(in_name):
     if test_name == 'matrix':
         return "numpy.matrix","",".astype('float64')"
     if test_name == 'sort':
-        return "","",".sort()"
+        return "sorted","",""
     return in_name,"",None   #dictionary defined
 
 @  Mathematical operations in dREL are complicated by the need to handle matrix
-- 
2.43.0


From 64863ead5f16a145c8b8af5d5a97687c1353ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 075/154] fix: dREL variables may have names that Python
 reserves

---
 src/drel/py_from_ast.nw | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index a26eab0..74acc3d 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -18,6 +18,7 @@ if isinstance(u"abc",str):   #Python3
     unicode = str
 
 import re
+import keyword
 from CifFile import CifError
 <<Configuration>>
 <<AST builder>>
@@ -38,6 +39,11 @@ by data access for looped datanames (iii) StarList and StarTable are understood
 value types (iv) the results of all applications are values ready for calculation.
 
 <<Configuration>>=
+# dREL variables may not use these names directly in the generated code
+reserved_names = set(keyword.kwlist) - set(["True","False","None"])
+reserved_names.update(["ciffile","packet_no","drel_runtime","numpy","math","cmath","copy",
+                       "StarList","print","repr","range","len","getattr","divmod","sorted",
+                       "dict","list","abs","int","float","str","complex","max","min","hash"])
 pycifrw_func_table = {   #how to use PyCIFRW CifFile objects
          "data_access": "ciffile[%s]",   # argument is dataname to be accessed
          "optional_data_access":"ciffile.get(%s,None)",
@@ -296,7 +302,7 @@ mentioned so that we can create a dependency tree.
             if in_node[1].lower() == 'pi':
                 return "math.pi"
             else:
-                return in_node[1]
+                return var_name(in_node[1])
         else:
             return traverse_ast(in_node[1])
     elif node_type == "ITEM_TAG":
@@ -533,7 +539,7 @@ are provided as keywords to the
 # dREL for statements include the final value, whereas a python range will include
 # everything up to the final number
     elif node_type == "DO":    #DO ID = start, finish, incr, suite
-        outstring = "for " + in_node[1] + " in drel_runtime.drel_range(" + traverse_ast(in_node[2]) + ","
+        outstring = "for " + var_name(in_node[1]) + " in drel_runtime.drel_range(" + traverse_ast(in_node[2]) + ","
         finish = traverse_ast(in_node[3])
         increment = traverse_ast(in_node[4])
         outstring = outstring + finish + "," + increment
@@ -543,7 +549,7 @@ are provided as keywords to the
     elif node_type == "FOR": # FOR target_list expression_list suite
         outstring = "for "
         for express in in_node[1]:
-            outstring = outstring + traverse_ast(express) + ","
+            outstring = outstring + var_name(express) + ","
         outstring = outstring[:-1] + " in "
         special_info["rhs"] = True
         for target in in_node[2]:
@@ -571,7 +577,7 @@ We do need to catch the case where a looped category has an explicit
 <<With statements>>=
 elif node_type == "WITH": #new_id old_id suite
     # each entry in special_id is [alias:[cat_name,loop variable, is_loop]]
-    alias_id = in_node[1]
+    alias_id = var_name(in_node[1])
     cat_id = in_node[2]
     is_already_there = [a for a in special_info['special_id'][-1].keys() if \
         special_info['special_id'][-1][a][0] == cat_id]
@@ -589,7 +595,7 @@ for datanames as necessary and inserting the packet index as well.
 
 <<Loop statements>>=
 elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE 
-    alias_id = in_node[1]
+    alias_id = var_name(in_node[1])
     cat_id = in_node[2]
     var_info = [cat_id,"",False]
     if cat_id not in special_info['loopable_cats'].keys():
@@ -601,7 +607,7 @@ elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE
     if in_node[3] == "":  # provide our own
         loop_index = "__pi%d" % loop_num
     else:
-        loop_index = in_node[3]
+        loop_index = var_name(in_node[3])
     var_info[1] = loop_index
     var_info[2] = True
     special_info['special_id'][-1].update({alias_id:var_info})
@@ -628,7 +634,7 @@ elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE
         #outstring +="\n" + "for __noloop in [0]:"
     # deal with this comparison test
     if in_node[4] != "":
-        outstring += "\n" + "__loop_range%d = [a for a in __loop_range%d if a %s %s]" % (loop_num,loop_num,in_node[4],in_node[5])
+        outstring += "\n" + "__loop_range%d = [a for a in __loop_range%d if a %s %s]" % (loop_num,loop_num,in_node[4],var_name(in_node[5]))
     # now output the looping command
     outstring += "\n" + "for %s in __loop_range%d:" % (loop_index,loop_num)
     # now the actual body of the loop
@@ -648,12 +654,12 @@ elif node_type == "FUNCTION":   #FUNCTION ID ARGLIST SUITE
     func_name = in_node[1]
     outstring = "def %s (" % func_name
     for one_arg in in_node[2]:
-        outstring += one_arg[0] + ","
+        outstring += var_name(one_arg[0]) + ","
     outstring = outstring + "ciffile):"
     # imports
     #import_lines = "import numpy\nfrom CifFile.drel import drel_runtime\n"
     import_lines = ""
-    outstring = outstring + add_indent("\n" + import_lines + traverse_ast(in_node[3])+"\nreturn %s" % func_name)
+    outstring = outstring + add_indent("\n" + import_lines + traverse_ast(in_node[3])+"\nreturn %s" % var_name(func_name))
     return outstring
 
 @  \section{Top level constructions}.
@@ -890,6 +896,13 @@ def add_indent(text,n=4):
     """Indent text by n spaces"""
     return re.sub("\n","\n"+4*" ",text)
 
+def var_name(in_name):
+    """Return a Python variable name for a dREL variable, avoiding names
+    that have a meaning in the generated code"""
+    if in_name in reserved_names or "$" in in_name:
+        return "drel_" + in_name.replace("$","_dollar_")
+    return in_name
+
 def getcatname(dataname):
     """Return cat,name pair from dataname"""
     try:
-- 
2.43.0


From 76e3254dc6d0ccc3663a6a83dd6ade8616c86feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 076/154] fix: dREL Eigen returns the eigenvectors

---
 src/drel/drel_runtime.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index da79090..c1d2ce2 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -174,7 +174,7 @@ def drel_eigen(in_matrix):
     move = list(numpy.argsort(vals))
     move.reverse()
     vals = vals[move]
-    vects = vects[move]
+    vects = vects[:,move].T   #eigenvectors are columns
     vects = list([[a]+list(numpy.asarray(v).ravel()) for a,v in zip(vals,vects)]) #Eigen returns 4-list
     return vects
 
-- 
2.43.0


From 685f0d4c82d5cc1380e7058beb7f7c98e248e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 077/154] fix: lists accept all integer types and slices in
 several dimensions

---
 src/StarFile.nw | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 32bca9d..b824607 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1241,12 +1241,20 @@ opportunity to expand the getitem method to allow multiple arguments.
 <<Define a collection datatype>>=
 class StarList(list):
     def __getitem__(self,args):
-        if isinstance(args,(int,slice)):
-            return super(StarList,self).__getitem__(args)
-        elif isinstance(args,tuple) and len(args)>1:   #extended comma notation
-            return super(StarList,self).__getitem__(args[0]).__getitem__(args[1:])
-        else:
-            return super(StarList,self).__getitem__(args[0])
+        if not isinstance(args,tuple):   #any integer type or slice
+            result = super(StarList,self).__getitem__(args)
+            if isinstance(args,slice):
+                return StarList(result)
+            return result
+        first = self[args[0]]
+        if len(args) == 1:
+            return first
+        rest = args[1:]              #extended comma notation
+        if len(rest) == 1:
+            rest = rest[0]
+        if isinstance(args[0],slice):
+            return StarList([one[rest] for one in first])
+        return first[rest]
 
     def __str__(self):
         return "SL("+super(StarList,self).__str__() + ")"
-- 
2.43.0


From 4b01e2bc992c858ad7a19d95b77008e35311eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 078/154] fix: a dREL slice without a start begins at the last
 element when counting down

---
 src/drel/drel_ast_yacc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drel/drel_ast_yacc.py b/src/drel/drel_ast_yacc.py
index 58ccde7..6fa5c52 100644
--- a/src/drel/drel_ast_yacc.py
+++ b/src/drel/drel_ast_yacc.py
@@ -341,8 +341,8 @@ def p_proper_slice(p):
 # Our AST slice convention is that, if anything is mentioned,
 # the first element is always
 # explicitly mentioned. A single element will be a starting
-# element. Two elements are start and finish. An empty list
-# is all elements. Three elements are start, finish, step.
+# element, which is empty if no start was given. Two elements
+# are start and finish. An empty list is all elements. Three elements are start, finish, step.
 # We combine these into a list of slices.
 
 def p_short_slice(p):
@@ -353,7 +353,7 @@ def p_short_slice(p):
     if len(p) == 2: p[0] = []
     if len(p) == 4: p[0] = [p[1],p[3]]
     if len(p) == 3 and p[1] == ":":
-        p[0] = [["LITERAL","0"],p[2]]
+        p[0] = ["",p[2]]
     if len(p) == 3 and p[2] == ":":
         p[0] = [p[1]]
 
-- 
2.43.0


From a26b2fa29cd16a72fd7eead1ecc9cca3046c7f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 079/154] fix: += and -= accept a list to the right of a
 number, as + and - do

---
 src/drel/drel_runtime.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index c1d2ce2..14d924a 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -48,7 +48,7 @@ def aug_append(current,extra):
 
 def aug_add(current,extra):
     """Sum the contents of extra to current"""
-    have_list = isinstance(current,list)
+    have_list = isinstance(current,list) or isinstance(extra,list)
     if have_list:
         # requires numpy
         return numpy.array(current) + numpy.array(extra)
@@ -56,7 +56,7 @@ def aug_add(current,extra):
         return current + extra
 
 def aug_sub(current,extra):
-   have_list = isinstance(current,(list,numpy.ndarray))
+   have_list = isinstance(current,(list,numpy.ndarray)) or isinstance(extra,list)
    if have_list:
         # requires numpy
         return numpy.array(current) - numpy.array(extra)
-- 
2.43.0


From dedd7edbdbca2dfe60718f8875c0b8474d3e694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 080/154] fix: the dREL Transpose function accepts lists

---
 src/drel/py_from_ast.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 74acc3d..e2cabe8 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -857,7 +857,7 @@ def get_function_name(in_name):
     if test_name == "upper":
         return "","",".upper()"
     if test_name == "transpose":
-        return "","",".T"
+        return "numpy.transpose","",""
     if test_name == 'expimag':
         return "cmath.exp","1j*(",")"
     if test_name in ['real','imag']:
-- 
2.43.0


From 0843fde6de0d70828ce90ae5945993db3708b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 081/154] fix: an unknown value that can not be derived stays
 in its block, and defaults replace it

---
 src/StarFile.nw | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index b824607..52a9ed9 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1638,20 +1638,21 @@ the enclosing block collection (e.g. CIF or STAR file object)""")
             elif rawitem == '?':
                     do_calculate = True
             if do_calculate:
-               # remove old value
-               del self[key]
-               try:
-                   new_value = self.dictionary.derive_item(key,self,store_value=True,allow_defaults=False)
-               except StarDerivationFailure as s:
+               def recalculate():
+                   # remove old value, which returns if there is no new one
+                   del self[key]
+                   new_value = self.dictionary.derive_item(key,self,store_value=True,allow_defaults=allow_defaults)
+                   if not key in self:
+                       raise StarDerivationFailure(key)
+                   return new_value
+               for allow_defaults in (False,True):
                    try:
-                       new_value = self.dictionary.derive_item(key,self,store_value=True,allow_defaults=True)
+                       new_value = self._all_or_nothing(recalculate)
                    except StarDerivationFailure as s:
-
-                       print("Could not turn %s into a value:" + repr(s))
-                       return rawitem
-               else:
-                   print('Set %s to derived value %s' % (key, repr( new_value )))
-                   return new_value
+                       print("Could not turn %s into a value: %s" % (rawitem,repr(s)))
+                   else:
+                       print('Set %s to derived value %s' % (key, repr( new_value )))
+                       return new_value
         return rawitem   #can't do anything
 
 def __delitem__(self,key):
@@ -1824,7 +1825,7 @@ def _all_or_nothing(self,additions):
     saved = (self.block.copy(),self.true_case.copy(),self.item_order[:],
              dict([(k,self.loops[k][:]) for k in self.loops]))
     try:
-        additions()
+        return additions()
     except Exception:
         self.block,self.true_case,self.item_order,self.loops = saved
         raise
-- 
2.43.0


From d216e5774767abc0fbdd48287974a1c5b1078589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 082/154] fix: dREL Current_Row may be used together with items
 of the row

---
 src/drel/py_from_ast.nw | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index e2cabe8..76f8105 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -165,9 +165,10 @@ number of packets during execution of the method.
     for one_opt in optional_names:
         end_body += "        if %s is None: %s = repeat(None)\n" % (one_opt,one_opt)
 
-    if cur_row and len(actual_names) > 1:    #i.e. have real names from category
-        end_body +="        __row_id = range(%s)\n" % (func_table['count_data'] % ("'"+actual_names[0]+"'"))
-    elif cur_row and len(actual_names)==1:   #so no actual names available
+    certain_names = [a for a,k in zip(actual_names,withtable.keys()) if not withtable[k][2]]
+    if cur_row and len(certain_names) > 0:    #i.e. have real names from category
+        end_body +="        __row_id = range(%s)\n" % (func_table['count_data'] % certain_names[0])
+    elif cur_row:   #so no actual names available
 
         end_body += "        cat_names = %s\n" % (func_table["cat_names"] % ("'"+getcatname(targetname)[0]+"'"))
         end_body += "        have_name = [a for a in cat_names if %s]\n" % (func_table["has_name"] % "a")
-- 
2.43.0


From 4705286cec45dfaafa69f4dbb0cdeda2e491b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 083/154] fix: a dREL method for rows ends when none of its
 optional items is present

---
 src/drel/py_from_ast.nw | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 76f8105..c4749ca 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -162,21 +162,23 @@ number of packets during execution of the method.
             end_body += "    except KeyError:\n"
             end_body += "            %s%d = None\n" % ("__option_w",n)
     end_body+=      "    if packet_no < 0:   #map\n"
-    for one_opt in optional_names:
-        end_body += "        if %s is None: %s = repeat(None)\n" % (one_opt,one_opt)
-
+    # work out the number of rows if some columns need not be there
     certain_names = [a for a,k in zip(actual_names,withtable.keys()) if not withtable[k][2]]
-    if cur_row and len(certain_names) > 0:    #i.e. have real names from category
-        end_body +="        __row_id = range(%s)\n" % (func_table['count_data'] % certain_names[0])
-    elif cur_row:   #so no actual names available
-
-        end_body += "        cat_names = %s\n" % (func_table["cat_names"] % ("'"+getcatname(targetname)[0]+"'"))
-        end_body += "        have_name = [a for a in cat_names if %s]\n" % (func_table["has_name"] % "a")
-        end_body += "        if len(have_name)>0:\n"
-        end_body += "           full_length = %s \n" % (func_table["count_data"] % (func_table["data_access"] % "have_name[0]"))
-        end_body += "           __row_id = range(full_length)\n"
+    if len(certain_names) > 0:    #i.e. have real names from category
+        end_body +="        full_length = %s\n" % (func_table['count_data'] % certain_names[0])
+    else:   #so perhaps no actual names available
+        end_body += "        present = [a for a in [%s] if a is not None]\n" % ",".join(optional_names)
+        end_body += "        if len(present)>0:\n"
+        end_body += "           full_length = %s\n" % (func_table['count_data'] % "present[0]")
         end_body += "        else:\n"
-        end_body += "           return []\n"
+        end_body += "           cat_names = %s\n" % (func_table["cat_names"] % ("'"+getcatname(targetname)[0]+"'"))
+        end_body += "           have_name = [a for a in cat_names if %s]\n" % (func_table["has_name"] % "a")
+        end_body += "           if len(have_name)==0: return []\n"
+        end_body += "           full_length = %s \n" % (func_table["count_data"] % (func_table["data_access"] % "have_name[0]"))
+    for one_opt in optional_names:
+        end_body += "        if %s is None: %s = repeat(None,full_length)\n" % (one_opt,one_opt)
+    if cur_row:
+        end_body += "        __row_id = range(full_length)\n"
 
     end_body+=      "        return list(imap(drel_func,%s))\n" % (map_names+",")
     end_body+=     "    else:\n"
-- 
2.43.0


From 9dfb51baf0ac3d2f92f501f92e16e1647b9b56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 084/154] fix: dREL items inside if statements are derived, and
 found by their other names

---
 src/drel/drel_runtime.nw | 14 ++++++++++++++
 src/drel/py_from_ast.nw  |  7 ++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/drel/drel_runtime.nw b/src/drel/drel_runtime.nw
index 14d924a..1219a1e 100644
--- a/src/drel/drel_runtime.nw
+++ b/src/drel/drel_runtime.nw
@@ -11,11 +11,25 @@ from numpy.linalg import eig
 if isinstance(u"abc",str):   #Python 3
     unicode = str
 
+<<Optional values>>
 <<Augmented assignments>>
 <<Mathematical operators>>
 <<Extra mathematical functions>>
 <<List operations>>
 
+@ Optional values. An item that is mentioned inside an 'if' statement need not
+be available. It is still derived if that is possible.
+
+<<Optional values>>=
+def drel_optional(ciffile,name):
+    """Return the value of item name, or None if it is not available"""
+    from CifFile.CifFile_module import CifRecursionError
+    from CifFile.StarFile import StarDerivationError
+    try:
+        return ciffile[name]
+    except (KeyError,CifRecursionError,StarDerivationError):
+        return None
+
 @ Augmented assignments.  aug_append returns a new object.  For numpy, if
 both arrays have the same dimensions, they are reshaped to a
 larger dimension and then concatenated along the
diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index c4749ca..4e16f62 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -46,7 +46,7 @@ reserved_names.update(["ciffile","packet_no","drel_runtime","numpy","math","cmat
                        "dict","list","abs","int","float","str","complex","max","min","hash"])
 pycifrw_func_table = {   #how to use PyCIFRW CifFile objects
          "data_access": "ciffile[%s]",   # argument is dataname to be accessed
-         "optional_data_access":"ciffile.get(%s,None)",
+         "optional_data_access":"drel_runtime.drel_optional(ciffile,%s)",
          "element_no": "%s[%s]", # accessing a particular element of the result of data_access
          "count_data": "len(%s)", # number of elements for result of data_access
          "cat_names":"ciffile.dictionary.names_in_cat(%s)", #names in category %s
@@ -157,10 +157,7 @@ number of packets during execution of the method.
     end_body = "\n"
     for n,one_opt in enumerate(withtable.keys()):
         if withtable[one_opt][2]:
-            end_body += "    try:\n"
-            end_body += "            %s%d = %s\n" % ("__option_w",n,func_table["optional_data_access"]%("'"+one_opt+"'"))
-            end_body += "    except KeyError:\n"
-            end_body += "            %s%d = None\n" % ("__option_w",n)
+            end_body += "    %s%d = %s\n" % ("__option_w",n,func_table["optional_data_access"]%("'"+one_opt+"'"))
     end_body+=      "    if packet_no < 0:   #map\n"
     # work out the number of rows if some columns need not be there
     certain_names = [a for a,k in zip(actual_names,withtable.keys()) if not withtable[k][2]]
-- 
2.43.0


From 6369ed97853e9c9c5a889f37111f6da2adaf7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 085/154] fix: derivation finds aliases whatever the case of
 their letters

---
 src/CifFile_module.nw | 6 +++---
 src/StarFile.nw       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index abdfea9..94526e6 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3300,12 +3300,12 @@ other derivation routes possible.
 <<Resolve using aliases>>=
 # check for aliases
 # check for an older form of a new value
-found_it = [k for k in self.alias_table.get(key,[]) if k in cifdata]
+found_it = [k for k in self.alias_table.get(key.lower(),[]) if k in cifdata]
 if len(found_it)>0:
     corrected_type = self.change_type(key,cifdata[found_it[0]])
     return corrected_type
 # now do the reverse check - any alternative form
-alias_name = [a for a in self.alias_table.items() if key in a[1]]
+alias_name = [a for a in self.alias_table.items() if key.lower() in [k.lower() for k in a[1]]]
 print('Aliases for %s: %s' % (key,repr(alias_name)))
 if len(alias_name)==1:
     key = alias_name[0][0]   #actual definition name
@@ -4313,7 +4313,7 @@ def track_recursion(in_this_func):
     """Keep an eye on a function call to make sure that the key argument hasn't been
     seen before"""
     def wrapper(*args,**kwargs):
-        key_arg = args[1]
+        key_arg = args[1].lower()
         if key_arg in wrapper.called_list:
             print('Recursion watch: %s already called %d times' % (key_arg,wrapper.called_list.count(key_arg)))
             raise CifRecursionError( key_arg,wrapper.called_list[:])    #failure
diff --git a/src/StarFile.nw b/src/StarFile.nw
index 52a9ed9..77d96af 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1689,7 +1689,7 @@ def has_key_or_alias(self,key):
     initial_test = key in self
     if initial_test: return True
     elif self.dictionary:
-        aliases = [k for k in self.dictionary.alias_table.get(key,[]) if self.has_key(k)]
+        aliases = [k for k in self.dictionary.alias_table.get(key.lower(),[]) if self.has_key(k)]
         if len(aliases)>0:
            return True
     return False
-- 
2.43.0


From ded7fc2fd586695c1f525a1de8b0ad74e6ae79e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 086/154] fix: every dREL loop statement has its own row number

---
 src/drel/py_from_ast.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 4e16f62..c1dd5fb 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -236,7 +236,7 @@ def start_traverse(in_node,api_table,target_id=None,loopable={},cat_meth=False,d
                   cif_dic=None):
   special_info = {"special_id":[{}],"target_id":target_id,"withtable":{},"sub_subject":"",
                   "depends":set(),"loopable_cats":loopable,"packet_vars":{},
-                  "need_current_row":False,"rhs":None,"inif":False}
+                  "need_current_row":False,"rhs":None,"inif":False,"loop_count":0}
   # create a virtual enclosing 'with' statement
   if target_id is not None and not cat_meth and not func:
       cat,name = getcatname(target_id)
@@ -603,7 +603,7 @@ elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE
         print(message)
         raise CifError(message)
     #loop over some index
-    loop_num = len(special_info['special_id'][-1])+1
+    loop_num = special_info["loop_count"] = special_info["loop_count"] + 1
     if in_node[3] == "":  # provide our own
         loop_index = "__pi%d" % loop_num
     else:
-- 
2.43.0


From 679dd93f5d9c4faef7f3c7a4765d219d392a0bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 087/154] fix: derived tables and arrays keep their kind when
 stored; every row of a looped item is derived, or none

---
 src/CifFile_module.nw   | 47 ++++++++++++++++++++++-------------------
 src/StarFile.nw         |  6 +++++-
 src/drel/py_from_ast.nw |  5 +++++
 3 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 94526e6..78c562c 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2968,6 +2968,24 @@ by the first element (e.g. could be a plain list, then a numpy array).
 The [[conv_from_numpy]] mini-functions are designed to handle arbitrary numpy arrays
 quickly.
 
+<<Converting a dREL value for storage>>=
+def conv_from_numpy(one_elem,is_array=False):
+    """Convert a dREL value to the form in which it is stored in a CifFile. A single
+    number remains a list if the item is an array."""
+    if not hasattr(one_elem,'dtype'):
+        if isinstance(one_elem,(list,tuple)):
+            return StarFile.StarList([conv_from_numpy(a) for a in one_elem])
+        if isinstance(one_elem,dict):
+            return StarFile.StarDict([(k,conv_from_numpy(v)) for k,v in one_elem.items()])
+        return one_elem
+    if one_elem.size > 1 or (is_array and one_elem.ndim > 0):   #so is not a float
+        return StarFile.StarList([conv_from_numpy(a) for a in one_elem.tolist()])
+    else:
+        try:
+            return one_elem.item(0)
+        except:
+            return one_elem
+
 <<Storing a dREL-derived value>>=
 def store_new_looped_value(self,key,cifdata,result,default_result):
       """Store a looped value from the dREL system into a CifFile"""
@@ -2976,25 +2994,15 @@ def store_new_looped_value(self,key,cifdata,result,default_result):
       out_result = result
       if result is not None and not default_result:
               # find any numpy arrays
-              def conv_from_numpy(one_elem):
-                  if not hasattr(one_elem,'dtype'):
-                     if isinstance(one_elem,(list,tuple)):
-                        return StarFile.StarList([conv_from_numpy(a) for a in one_elem])
-                     return one_elem
-                  if one_elem.size > 1:   #so is not a float
-                     return StarFile.StarList([conv_from_numpy(a) for a in one_elem.tolist()])
-                  else:
-                      try:
-                        return one_elem.item(0)
-                      except:
-                        return one_elem
-              out_result = [conv_from_numpy(a) for a in result]
+              is_array = self[key].get('_type.container') in ('Array','Matrix')
+              out_result = [conv_from_numpy(a,is_array) for a in result]
       # so out_result now contains a value suitable for storage
       cat_names = [a for a in self.keys() if self[a].get("_name.category_id",None)==the_category]
       has_cat_names = [a for a in cat_names if a in cifdata]
       print('Adding {}, found pre-existing names: '.format(key) + repr(has_cat_names))
       if len(has_cat_names)>0:   #this category already exists
-          cifdata[key] = out_result      #lengths must match or else!!
+          cifdata.check_column_length(has_cat_names[0],key,out_result)  #lengths must match or else!!
+          cifdata[key] = out_result
           cifdata.AddLoopName(has_cat_names[0],key)
       else:
           cifdata[key] = out_result
@@ -3004,14 +3012,7 @@ def store_new_looped_value(self,key,cifdata,result,default_result):
 
 def store_new_unlooped_value(self,key,cifdata,result):
       """Store a single value from the dREL system"""
-      if result is not None and hasattr(result,'dtype'):
-          if result.size > 1:
-              out_result = StarFile.StarList(result.tolist())
-              cifdata[key] = out_result
-          else:
-              cifdata[key] = result.item(0)
-      else:
-          cifdata[key] = result
+      cifdata[key] = conv_from_numpy(result,self[key].get('_type.container') in ('Array','Matrix'))
       return result
 
 @ Storing category results.  dREL allows 'category methods', which initialise an entire
@@ -4230,6 +4231,8 @@ work transparently for either string or number-valued Star Lists, so we do not
 have to worry.
 
 <<Convert a matrix value>>=
+<<Converting a dREL value for storage>>
+
 def convert_matrix_values(valtype):
     """Convert a dREL String or Float valued List structure to a numpy matrix structure"""
     # first convert to numpy array, then let numpy do the work
diff --git a/src/StarFile.nw b/src/StarFile.nw
index 77d96af..d2b3a3a 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1621,7 +1621,11 @@ the enclosing block collection (e.g. CIF or STAR file object)""")
     if not self.dictionary or not key in self.dictionary: return rawitem
     print('%s: is_value %s provide_value %s value %s' % (key,repr( is_value ),repr( self.provide_value ),repr( rawitem )))
     if is_value:
-        if self.provide_value: return rawitem
+        if self.provide_value:
+            # stored as lists, but the same kind of value that was derived
+            if self.dictionary[key].get('_type.container') in ('Array','Matrix'):
+                return self.dictionary.change_type(key,rawitem)
+            return rawitem
         else:
            print('Turning %s into string' % repr( rawitem ))
            return self.convert_to_string(key)
diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index c1dd5fb..f1ebdbc 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -238,10 +238,12 @@ def start_traverse(in_node,api_table,target_id=None,loopable={},cat_meth=False,d
                   "depends":set(),"loopable_cats":loopable,"packet_vars":{},
                   "need_current_row":False,"rhs":None,"inif":False,"loop_count":0}
   # create a virtual enclosing 'with' statement
+  row_method = False
   if target_id is not None and not cat_meth and not func:
       cat,name = getcatname(target_id)
       special_info["special_id"][-1].update({"_"+cat:[cat,"",False]})
       if cat in special_info["loopable_cats"].keys():    #
+          row_method = True
           special_info["special_id"][-1]["_"+cat][1] = "looped_cat"
   <<Maths operator conversion table>>
   def traverse_ast(in_node,debug=debug):
@@ -268,6 +270,9 @@ def start_traverse(in_node,api_table,target_id=None,loopable={},cat_meth=False,d
   if not special_info.get("have_drel_target",False):
       print('WARNING: no assignment to __dreltarget in %s (this is OK for category methods)' % repr(target_id))
       print(result)
+  # a method of a looped item calculates one row, even if it mentions no item of that row
+  if row_method:
+      special_info["need_current_row"] = special_info["need_current_row"] or len(special_info["withtable"]) == 0
   return result,special_info["withtable"],special_info["depends"],special_info["need_current_row"]
 
 @  These are the simple constants that we have detected.
-- 
2.43.0


From 867911eddc4d15e047d49c3a2238128fc3de489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 088/154] fix: list values are converted whatever their nesting
 and dimension

---
 src/CifFile_module.nw | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 78c562c..a81f9f3 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4213,9 +4213,13 @@ class convert_simple_list(object):
 def convert_list_values(structure, dimension):
     """Convert the values according to the element
        structure given in [[structure]]"""
-    # simple repetition
+    # simple repetition, whatever the nesting
     if isinstance(structure, (unicode, str)):
-        fcnv = convert_single_value(structure)
+        single = convert_single_value(structure)
+        def fcnv(arg):
+            if isinstance(arg, (list, tuple)):
+                return [fcnv(a) for a in arg]
+            return single(arg)
     # assume structure is a list of types
     else:
         fcnv = convert_simple_list(structure)
-- 
2.43.0


From fb73a5628935d38a8887f6e1a9925754f4e4b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 089/154] fix: derived codes are the same before and after they
 are stored

---
 src/StarFile.nw | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index d2b3a3a..34051c8 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1613,6 +1613,11 @@ the enclosing block collection (e.g. CIF or STAR file object)""")
                    print("In StarBlock.__getitem__, " + repr(s))
                    raise KeyError('No such item: %s' % key)
            print('Set %s to derived value %s' % (key, repr(new_value)))
+           if self.provide_value and '_type.contents' in self.dictionary.get(key,{}) and check_stringiness(new_value):
+               # the same value as when the stored value is accessed
+               listed = new_value if isinstance(new_value,(list,tuple)) else [new_value]
+               if '?' not in listed and '.' not in listed:
+                   return self.dictionary.change_type(key,new_value)
            return new_value
        else:
            raise KeyError('No such item: %s' % key)
-- 
2.43.0


From f434a6856ff3533de6d3feae5dea7784f248f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 090/154] fix: indexed defaults: values outside the table have
 no default, numbers can be the index

---
 src/CifFile_module.nw | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index a81f9f3..a3d67f9 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3333,11 +3333,19 @@ if def_val:
     result = self.change_type(key,def_val)
     default_result = True
 elif def_index_val:            #derive a default value
-    index_vals = self[key]["_enumeration_default.index"]
+    index_vals = self.change_type(def_index_val,list(self[key]["_enumeration_default.index"]))
     val_to_index = cifdata[def_index_val]     #what we are keying on
-    if self[def_index_val]['_type.contents'] in ['Code','Name','Tag']:
-        lcase_comp = True
+    # no default if a value is unknown
+    as_list = lambda a: a if isinstance(a,list) else [a]
+    if any([a in ('?','.') for a in as_list(val_to_index)]):
+        raise StarFile.StarDerivationError(start_key)
+    val_to_index = self.change_type(def_index_val,val_to_index)
+    lcase_comp = self[def_index_val]['_type.contents'] in ['Code','Name','Tag']
+    if lcase_comp:
         index_vals = [a.lower() for a in index_vals]
+    # no default if the value is not in the table
+    if any([a not in index_vals and not (lcase_comp and a.lower() in index_vals) for a in as_list(val_to_index)]):
+        raise StarFile.StarDerivationError(start_key)
     # Handle loops
     if isinstance(val_to_index,list):
         if lcase_comp:
@@ -3347,7 +3355,7 @@ elif def_index_val:            #derive a default value
     else:
         if lcase_comp:
             val_to_index = val_to_index.lower()
-        keypos = index_vals.index(val_to_index)   #value error if no such value available
+        keypos = index_vals.index(val_to_index)
         result = self[key]["_enumeration_default.value"][keypos]
         default_result = True   #flag that it must be extended
     result = self.change_type(key,result)
-- 
2.43.0


From 3cddee5cca4b4613a4703d4cb5cf8b2131e18e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 091/154] fix: category names in dREL methods are
 case-insensitive

---
 src/drel/py_from_ast.nw | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index f1ebdbc..630469b 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -241,6 +241,7 @@ def start_traverse(in_node,api_table,target_id=None,loopable={},cat_meth=False,d
   row_method = False
   if target_id is not None and not cat_meth and not func:
       cat,name = getcatname(target_id)
+      cat = cat.lower()
       special_info["special_id"][-1].update({"_"+cat:[cat,"",False]})
       if cat in special_info["loopable_cats"].keys():    #
           row_method = True
@@ -376,15 +377,15 @@ elif node_type == "SUBSCRIPTION":  # variable, single expression
     newid = 0
     if in_node[1][0] == "ATOM" and in_node[1][1][0] == "ITEM_TAG":  #keyed lookup
         print("Found category used as item tag: subscribing")
-        newid = [in_node[1][1][1][1:],False,False]  #drop underscore and remember
+        newid = [in_node[1][1][1][1:].lower(),False,False]  #drop underscore and remember
     else:
         primary = traverse_ast(in_node[1])
         # check to see if this is a special variable
         for idtable in special_info["special_id"]:
             newid = idtable.get(primary,0)
             if newid: break
-            if primary in special_info["loopable_cats"].keys():   #loop category used
-                newid = [primary,False,False]
+            if primary.lower() in special_info["loopable_cats"].keys():   #loop category used
+                newid = [primary.lower(),False,False]
                 break
     if newid:
         #FIXME: the dataname may not be the <cat>.<obj> construction (eg pdCIF)
@@ -436,7 +437,7 @@ elif node_type == "ATTRIBUTE":  # id/tag , att
     # check for special ids
     primary = traverse_ast(in_node[1])  # this will set sub_subject if necessary
     for idtable in special_info["special_id"]:
-        newid = idtable.get(primary,0)
+        newid = idtable.get(primary,0) or (primary[0] == "_" and idtable.get(primary.lower(),0))
         if newid: break
     if newid:
         #catch our output name
@@ -583,14 +584,14 @@ We do need to catch the case where a looped category has an explicit
 elif node_type == "WITH": #new_id old_id suite
     # each entry in special_id is [alias:[cat_name,loop variable, is_loop]]
     alias_id = var_name(in_node[1])
-    cat_id = in_node[2]
+    cat_id = in_node[2].lower()   #category names are case-insensitive
     is_already_there = [a for a in special_info['special_id'][-1].keys() if \
         special_info['special_id'][-1][a][0] == cat_id]
     if len(is_already_there)>0:
         del special_info['special_id'][-1][is_already_there[0]]
         print("Found explicit loop category alias: %s for %s" % (alias_id,cat_id) )
     special_info['special_id'][-1].update({alias_id:[cat_id,"",False]})
-    if in_node[2] in special_info['loopable_cats'].keys(): #flag this
+    if cat_id in special_info['loopable_cats'].keys(): #flag this
         special_info['special_id'][-1][alias_id][1] = "looped_cat"
     outstring = traverse_ast(in_node[3])
     return outstring
@@ -601,7 +602,7 @@ for datanames as necessary and inserting the packet index as well.
 <<Loop statements>>=
 elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE 
     alias_id = var_name(in_node[1])
-    cat_id = in_node[2]
+    cat_id = in_node[2].lower()
     var_info = [cat_id,"",False]
     if cat_id not in special_info['loopable_cats'].keys():
         message =  "%s is not a loopable category (must be one of:\n%s)" % (cat_id,special_info['loopable_cats'].keys())
-- 
2.43.0


From 37cb143100cb4cef939f23425f67394896d24f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 092/154] fix: items made by the method of their category are
 found whatever their case

---
 src/CifFile_module.nw | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index a3d67f9..f64bcfb 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3119,13 +3119,14 @@ if len(pulled_to_cats)>0 and len(cat_result)==0:
         cat_result = self.push_from_pullback(the_category,pulled_to_cats,cifdata,store_value=True)
     except (CifRecursionError,StarFile.StarDerivationError):
         print('** Failed to construct category %s from pullback information (error)' % the_category)
-if '_method.py_expression' in self[the_category] and key not in cat_result:
+if '_method.py_expression' in self[the_category] and key.lower() not in [k.lower() for k in cat_result]:
     print("**Now applying category method for %s in search of %s**" % (the_category,key))
     cat_result = self.derive_item(the_category,cifdata,store_value=True)
 print("**Tried pullbacks, obtained for %s " % the_category + repr(cat_result))
 # do we now have our value?
-if key in cat_result:
-    return cat_result[key]
+found_name = [k for k in cat_result if k.lower() == key.lower()]
+if found_name:
+    return cat_result[found_name[0]]
 
 @ Constructing categories using DDLm attributes. We have defined local
 attributes that describe category construction using mathematical
-- 
2.43.0


From 37d1c392d387ca3c8fd40d04fc4434c794a292f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 093/154] fix: a category without rows contributes nothing to a
 row found by key

---
 src/StarFile.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 34051c8..e2bc69c 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2467,6 +2467,8 @@ def GetKeyedSemanticPacket(self,keyvalue,cat_id):
                 not (isinstance(test_key,list) and (None in test_key or len(test_key)==0)):
                     print('Getting packet for key %s' % repr( keyvalue ))
                     extra_packet = self.GetKeyedPacket(cat_key,keyvalue,no_case=lcase)
+                else:
+                    continue
             except:             #cannot be generated
                 continue
         except ValueError:      #none/more than one, assume none
-- 
2.43.0


From fbe7776ed73622a754e94f987cfec69d2b71d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 094/154] fix: a value that needs a missing row can not be
 derived

---
 src/StarFile.nw | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e2bc69c..34f4109 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2481,7 +2481,7 @@ def GetKeyedSemanticPacket(self,keyvalue,cat_id):
             p.key = [keyname]
             break
     if not hasattr(p,"key"):
-        raise ValueError("No key found for %s, packet is %s" % (cat_id,str(p)))
+        raise StarLookupError("No key found for %s, packet is %s" % (cat_id,str(p)))
     p.cif_dictionary = self.dictionary
     p.fulldata = self
     return p
@@ -3384,6 +3384,14 @@ class StarDerivationError(Exception):
     def __str__(self):
         return "Derivation of %s failed, None returned" % self.fail_name
 
+#
+# A row looked up by key was not found: inside a method this means
+# that the value can not be derived
+#
+class StarLookupError(StarDerivationError,ValueError):
+    def __str__(self):
+        return self.fail_name
+
 #
 # This is subclassed from AttributeError in order to allow hasattr
 # to work.
-- 
2.43.0


From 6ab9f7ac2425030930c7eac8640ff6072b0e955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 095/154] fix: numbers with a plus sign, and with both exponent
 and standard uncertainty

---
 src/CifFile_module.nw | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index f64bcfb..dcefe5e 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3420,8 +3420,8 @@ by searching for an opening round bracket
 <<Convert value to float, ignore esd>>=
 def float_with_esd(inval):
     if isinstance(inval,unicode):
-        j = inval.find("(")
-        if j>=0:  return float(inval[:j])
+        base_num,esd = get_number_with_esd(inval)
+        if base_num is not None: return base_num
     return float(inval)
 
 
@@ -4098,11 +4098,12 @@ def run_data_checks(check_block,fulldic,block_scope='Item'):
 <<Get topmost parent>>
 
 @ This support function uses re capturing to work out the number's value. The
-re contains 7 groups: group 0 is the entire expression; group 1 is the overall
-match in the part prior to esd brackets; group 2 is the match with a decimal
-point, group 3 is the digits after the decimal point, group 4 is the match
-without a decimal point.  Group 5 is the esd bracket contents, and
-group 6 is the exponent.
+re contains 8 groups: group 1 is the overall
+match in the part prior to esd brackets; groups 2 and 3 are the match with a decimal
+point, group 4 is the digits after the decimal point, group 5 is the match
+without a decimal point.  Group 6 is the esd bracket contents,
+group 7 is the exponent and group 8 is the esd bracket contents if they
+follow the exponent.
 
 The esd should be returned as an independent number.  We count the number
 of digits after the decimal point, create the esd in terms of this, and then,
@@ -4110,14 +4111,15 @@ if necessary, apply the exponent.
 
 <<Extract number and esd>>=
 def get_number_with_esd(numstring):
-    numb_re = '((-?(([0-9]*[.]([0-9]+))|([0-9]+)[.]?))([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?)|(\\?)|(\\.)'
+    numb_re = '([-+]?(([0-9]*[.]([0-9]+))|([0-9]+)[.]?))([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?([(][0-9]+[)])?$'
     our_match = re.match(numb_re,numstring)
-    if our_match:
-        a,base_num,b,c,dad,dbd,esd,exp,q,dot = our_match.groups()
+    # the uncertainty follows the exponent, but is also found before it
+    if our_match and not (our_match.group(6) and our_match.group(8)):
+        base_num,b,c,dad,dbd,esd,exp,final_esd = our_match.groups()
+        esd = esd or final_esd
         # print("Debug: {} -> {!r}".format(numstring, our_match.groups()))
     else:
         return None,None
-    if dot or q: return None,None     #a dot or question mark
     if exp:          #has exponent
        exp = exp.replace("d","e")     # mop up old fashioned numbers
        exp = exp.replace("D","e")
@@ -4126,11 +4128,10 @@ def get_number_with_esd(numstring):
     base_num = float(base_num)
     # work out esd, if present.
     if esd:
-        esd = float(esd[1:-1])    # no brackets
+        power = int(exp[1:]) if exp else 0
         if dad:                   # decimal point + digits
-            esd = esd * (10 ** (-1* len(dad)))
-        if exp:
-            esd = esd * (10 ** (float(exp[1:])))
+            power = power - len(dad)
+        esd = float("%se%d" % (esd[1:-1],power))    # no brackets
     return base_num,esd
 
 @  For dREl operations we require that all numerical types actually appear
-- 
2.43.0


From 5e11d312aa2da4b3de226d71ab2f1765a9d3e415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 096/154] fix: text can be converted to imaginary numbers

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index dcefe5e..741ec6e 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4180,7 +4180,7 @@ def convert_single_value(type_spec):
     if type_spec == 'Complex':
         return complex
     if type_spec == 'Imag':
-        return lambda a:complex(0,a)
+        return lambda a: a if isinstance(a,complex) else complex(0,float_with_esd(a))
     if type_spec in ('Code','Name','Tag'):  #case-insensitive -> lowercase
         return lambda a:a.lower()
     return lambda a:a   #can't do anything numeric
-- 
2.43.0


From 5afba70a16ae994a55404aa0a759414380382421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 097/154] fix: matrix elements are converted like other values

---
 src/CifFile_module.nw | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 741ec6e..1fde827 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4256,14 +4256,18 @@ def convert_matrix_values(valtype):
         return lambda a:a   #cannot do it
     if valtype == 'Real':
         dtype = float
-    elif valtype == 'Integer':
+    elif valtype in ('Count','Integer','Index'):
         dtype = int
-    elif valtype == 'Complex':
+    elif valtype in ('Complex','Imag'):
         dtype = complex
-    else:
-        raise ValueError('Unknown matrix value type')
-    fcnv = lambda a : numpy.asarray(a, dtype=dtype)
-    return fcnv
+    else:                     #not numerical
+        return convert_list_values(valtype,[])
+    single = convert_single_value(valtype)
+    def fcnv(a):
+        # the elements may have standard uncertainties
+        if isinstance(a,(list,tuple)): return [fcnv(b) for b in a]
+        return single(a) if isinstance(a,(unicode,str)) else a
+    return lambda a : numpy.asarray(fcnv(a), dtype=dtype)
 
 @  DDLm specifies List element composition using a notation of form 'cont(el,el,el...)'
 where 'cont' refers to a container constructor (list or matrix so far) and 'el' is a simple
-- 
2.43.0


From 517b43db9a874a0c5b32f1d21a9b79ae2bad015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 098/154] fix: values with unknown or inapplicable elements are
 not converted

---
 src/StarFile.nw | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index 34f4109..793158a 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1615,8 +1615,7 @@ the enclosing block collection (e.g. CIF or STAR file object)""")
            print('Set %s to derived value %s' % (key, repr(new_value)))
            if self.provide_value and '_type.contents' in self.dictionary.get(key,{}) and check_stringiness(new_value):
                # the same value as when the stored value is accessed
-               listed = new_value if isinstance(new_value,(list,tuple)) else [new_value]
-               if '?' not in listed and '.' not in listed:
+               if not has_unknown(new_value):
                    return self.dictionary.change_type(key,new_value)
            return new_value
        else:
@@ -1635,8 +1634,7 @@ the enclosing block collection (e.g. CIF or STAR file object)""")
            print('Turning %s into string' % repr( rawitem ))
            return self.convert_to_string(key)
     else:    # a string
-        if self.provide_value and ((not isinstance(rawitem,list) and rawitem != '?' and rawitem != ".") or \
-                                  (isinstance(rawitem,list) and '?' not in rawitem and '.' not in rawitem)):
+        if self.provide_value and not has_unknown(rawitem):
             return self.dictionary.change_type(key,rawitem)
         elif self.provide_value: # catch the question marks
             do_calculate = False
@@ -1998,6 +1996,14 @@ matrices don't).  So we have to pick up this case while
 attempting to make dependence on Numpy optional.
 
 <<Check stringiness>>=
+def has_unknown(data):
+   """Check if any value, however deeply nested, is unknown or inapplicable"""
+   if isinstance(data,(unicode,str)):
+       return data in ('?','.')
+   if isinstance(data,(list,tuple)):
+       return any([has_unknown(a) for a in data])
+   return False
+
 def check_stringiness(data):
    """Check that the contents of data are all strings"""
    if not hasattr(data,'dtype'):   #so not Numpy
-- 
2.43.0


From e49aeca9e7fba50c10ac484cdb59ec1058c3b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 099/154] fix: list dimensions can be text and have several
 parts

---
 src/CifFile_module.nw | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 1fde827..76d4503 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4235,6 +4235,11 @@ def convert_list_values(structure, dimension):
         fcnv = convert_simple_list(structure)
     rv = fcnv
     # setup nested conversion function when dimension differs from 1.
+    # The dimension is a list of numbers, or text such as '[3,3]'
+    if isinstance(dimension, (unicode, str)):
+        dimension = re.findall('[0-9]+', dimension)
+    else:
+        dimension = re.findall('[0-9]+', ' '.join(["%s" % a for a in dimension]))
     if len(dimension) > 0 and int(dimension[0]) != 1:
         rv = lambda args : [fcnv(a) for a in args]
     return rv
-- 
2.43.0


From 86f3ce5a40e62dd59313087bfd787b2ca6f7d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 100/154] fix: an item has the same value whichever of its
 names is used in the data and to ask for it

---
 src/CifFile_module.nw | 14 +++++++++++++-
 src/StarFile.nw       | 16 +++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 76d4503..86b0f52 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1037,7 +1037,19 @@ alternatives.
 def create_alias_table(self):
     """Populate an alias table that we can look up when searching for a dataname"""
     all_aliases = [a for a in self.keys() if '_alias.definition_id' in self[a]]
-    self.alias_table = dict([[a,self[a]['_alias.definition_id']] for a in all_aliases])
+    self.alias_table = dict([[a,listify(self[a]['_alias.definition_id'])] for a in all_aliases])
+
+def equivalent_names(self,dataname):
+    """Return a list of all datanames that have the same definition as ``dataname``,
+    starting with the dataname used in the definition"""
+    lname = dataname.lower()
+    if lname in self:
+        definitions = [lname]
+    else:
+        definitions = [a for a in self.alias_table if lname in [k.lower() for k in self.alias_table[a]]]
+    if len(definitions) != 1:
+        return [dataname]
+    return definitions + list(self.alias_table.get(definitions[0],[]))
 
 @ DDLm internally refers to data items by the category.object notation, with the twist
 that child categories of loops can have their objects appear in the parent category. So
diff --git a/src/StarFile.nw b/src/StarFile.nw
index 793158a..e4b6ee4 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1603,6 +1603,10 @@ the enclosing block collection (e.g. CIF or STAR file object)""")
        rawitem,is_value = self.GetFullItemValue(key)
     except KeyError:
        if self.dictionary:
+           # it may be present under a different name
+           for other_name in self.dictionary.equivalent_names(key):
+               if other_name in self:
+                   return self[other_name]
            # send the dictionary the required key and a pointer to us
            try:
                new_value = self.dictionary.derive_item(key,self,store_value=self.cache_vals,allow_defaults=False)
@@ -1622,20 +1626,22 @@ the enclosing block collection (e.g. CIF or STAR file object)""")
            raise KeyError('No such item: %s' % key)
     # we now have an item, we can try to convert it to a number if that is appropriate
     # note numpy values are never stored but are converted to lists
-    if not self.dictionary or not key in self.dictionary: return rawitem
+    if not self.dictionary: return rawitem
+    defined_name = self.dictionary.equivalent_names(key)[0]
+    if not defined_name in self.dictionary: return rawitem
     print('%s: is_value %s provide_value %s value %s' % (key,repr( is_value ),repr( self.provide_value ),repr( rawitem )))
     if is_value:
         if self.provide_value:
             # stored as lists, but the same kind of value that was derived
-            if self.dictionary[key].get('_type.container') in ('Array','Matrix'):
-                return self.dictionary.change_type(key,rawitem)
+            if self.dictionary[defined_name].get('_type.container') in ('Array','Matrix'):
+                return self.dictionary.change_type(defined_name,rawitem)
             return rawitem
         else:
            print('Turning %s into string' % repr( rawitem ))
            return self.convert_to_string(key)
     else:    # a string
         if self.provide_value and not has_unknown(rawitem):
-            return self.dictionary.change_type(key,rawitem)
+            return self.dictionary.change_type(defined_name,rawitem)
         elif self.provide_value: # catch the question marks
             do_calculate = False
             if isinstance(rawitem,(list,tuple)):
@@ -1696,7 +1702,7 @@ def has_key_or_alias(self,key):
     initial_test = key in self
     if initial_test: return True
     elif self.dictionary:
-        aliases = [k for k in self.dictionary.alias_table.get(key.lower(),[]) if self.has_key(k)]
+        aliases = [k for k in self.dictionary.equivalent_names(key) if self.has_key(k)]
         if len(aliases)>0:
            return True
     return False
-- 
2.43.0


From 2481b6e1df2c91008c46b774c614a9abfa6a7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 101/154] fix: dictionaries can have looped categories nested
 more than two deep

---
 src/CifFile_module.nw | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 86b0f52..dc99e5c 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1125,17 +1125,15 @@ def create_cat_key_table(self):
     a compound key, that is, it is a list"""
     self.cat_key_table = dict([(c,[listify(self[c].get("_category_key.name",
         [self[c].get("_category.key_id")]))]) for c in self.get_loopable_cats()])
-    def collect_keys(parent_cat,child_cats):
+    def collect_keys(parent_cat):
             kk = []
-            for child_cat in child_cats:
-                if child_cat in self.loop_expand_list:
-                    kk += collect_keys(child_cat)
-                # add these keys to our list
+            for child_cat in self.loop_expand_list.get(parent_cat,[]):
+                # add these keys, and those of all its children, to our list
                 kk += [listify(self[child_cat].get('_category_key.name',[self[child_cat].get('_category.key_id')]))]
-            self.cat_key_table[parent_cat] = self.cat_key_table[parent_cat] + kk
+                kk += collect_keys(child_cat)
             return kk
-    for k,v in self.loop_expand_list.items():
-        collect_keys(k,v)
+    for k in self.loop_expand_list.keys():
+        self.cat_key_table[k] = self.cat_key_table[k] + collect_keys(k)
     print('Keys for categories' + repr(self.cat_key_table))
 
 @  CIF Dictionaries use the square bracket notation to refer to the definition, as for CifFile
-- 
2.43.0


From e7e0801fab878ab9a01f2077ba365ff9414cc181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 102/154] fix: a single category key in a dictionary need not
 be looped

---
 src/drel/py_from_ast.nw | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drel/py_from_ast.nw b/src/drel/py_from_ast.nw
index 630469b..64358b1 100644
--- a/src/drel/py_from_ast.nw
+++ b/src/drel/py_from_ast.nw
@@ -625,7 +625,9 @@ elif node_type == "LOOP": #ALIAS CAT LOOPVAR COMP COMPVAR SUITE
     outstring += "\nprint('names in cat = %s' % repr(__pyallitems))"
     outstring += "\n" + "__pycitems = [a for a in __pyallitems if %s]" % (api_table["has_name"] % "a")
     outstring += "\nprint('names in cat -> %s' % repr(__pycitems))\n"
-    cat_key = cif_dic[cat_id]['_category_key.name'][0]   #take official key
+    cat_key = cif_dic[cat_id]['_category_key.name']   #take official key
+    if not isinstance(cat_key,(unicode,str)):         #single keys need not be looped
+        cat_key = cat_key[0]
     # If there is nothing in the category, provoke category creation by evaluating the key
     outstring += "if len(__pycitems)==0:\n"
     outstring += "    __pydummy = %s\n" % (api_table["data_access"] % repr(cat_key))
-- 
2.43.0


From 1f7b092db9ae00c044dbfb09733435a60b7499ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 103/154] fix: objects of every child category can be found
 from their parent

---
 src/CifFile_module.nw | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index dc99e5c..e51bcbc 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1081,28 +1081,25 @@ def create_cat_obj_table(self):
     expand_list = dict([(a,b) for a,b in zip(loopable,loop_children) if len(b)>0])
     print("Expansion list:" + repr(expand_list))
     extra_table = {}   #for debugging we keep it separate from base_table until the end
+    def own_names(cat):
+        return [(self[n]['_name.object_id'].lower(),self[n]['_definition.id']) \
+                for n in self.names_in_cat(cat) if self[n].get('_type.purpose','') != 'Key']
     def expand_base_table(parent_cat,child_cats):
-        extra_names = []
+        all_names = []
         # first deal with all the child categories
         for child_cat in child_cats:
-          nn = []
           if child_cat in expand_list:  # a nested category: grab its names
-            nn = expand_base_table(child_cat,expand_list[child_cat])
-            # store child names
-            extra_names += nn
+            child_names = expand_base_table(child_cat,expand_list[child_cat])
+          else:
+            child_names = own_names(child_cat)
           # add all child names to the table
-          child_names = [(self[n]['_name.object_id'].lower(),self[n]['_definition.id']) \
-                         for n in self.names_in_cat(child_cat) if self[n].get('_type.purpose','') != 'Key']
-          child_names += extra_names
-          extra_table.update(dict([((parent_cat,obj),[name]) for obj,name in child_names if (parent_cat,name) not in extra_table]))
-        # and the repeated ones get appended instead
-        repeats = [a for a in child_names if a in extra_table]
-        for obj,name in repeats:
-            extra_table[(parent_cat,obj)] += [name]
+          for obj,name in child_names:
+              known_names = extra_table.setdefault((parent_cat,obj),[])
+              # the repeated ones get appended instead
+              if name not in known_names: known_names.append(name)
+          all_names += child_names
         # and finally, add our own names to the return list
-        child_names += [(self[n]['_name.object_id'].lower(),self[n]['_definition.id']) \
-                        for n in self.names_in_cat(parent_cat) if self[n].get('_type.purpose','')!='Key']
-        return child_names
+        return own_names(parent_cat) + all_names
     [expand_base_table(parent,child) for parent,child in expand_list.items()]
     print('Expansion cat/obj values: ' + repr(extra_table))
     # append repeated ones
-- 
2.43.0


From 554f2941a6098fc3d867f67e71d1dc803688ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 104/154] fix: rows can be found by key when the data use
 alternative names

---
 src/StarFile.nw | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index e4b6ee4..b79fc01 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1379,6 +1379,10 @@ class StarPacket(list):
         if att_name in ('cif_dictionary','fulldata','key'):
             raise AttributeError('Programming error: can only assign value of %s' % att_name)
         d = self.cif_dictionary
+        # it may be present under a different name
+        for other_name in d.equivalent_names(att_name):
+            if other_name.lower() in self.__dict__:
+                return getattr(self,other_name.lower())
         c = self.fulldata
         k = self.key
         assert isinstance(k,list)
@@ -2453,6 +2457,14 @@ single key into a list as the __getattr__ method of the StarPacket
 will assume that it has been passed a list of keys.
 
 <<Get semantic packet by key>>=
+def _present_name(self,dataname):
+    """Return the name under which the item defined as `dataname` is present,
+    or `dataname` if it is absent"""
+    for one_name in self.dictionary.equivalent_names(dataname):
+        if one_name in self:
+            return one_name
+    return dataname
+
 def GetKeyedSemanticPacket(self,keyvalue,cat_id):
     """Return a complete packet for category `cat_id` where the
     category key for the category equals `keyvalue`.  This routine
@@ -2461,13 +2473,15 @@ def GetKeyedSemanticPacket(self,keyvalue,cat_id):
     same category hierarchy (e.g. `_atom_site` and `_atom_site_aniso`),
     the returned `StarPacket` object will contain datanames from
     both categories."""
-    target_keys = self.dictionary.cat_key_table[cat_id]
+    target_keys = self.dictionary.cat_key_table[cat_id.lower()]
     target_keys = [k[0] for k in target_keys] #one only in each list
     p = StarPacket()
     # set case-sensitivity flag
     lcase = False
     if self.dictionary[target_keys[0]]['_type.contents'] in ['Code','Tag','Name']:
         lcase = True
+    # the datafile may use alternative names
+    target_keys = [self._present_name(k) for k in target_keys]
     for cat_key in target_keys:
         try:
             extra_packet = self.GetKeyedPacket(cat_key,keyvalue,no_case=lcase)
-- 
2.43.0


From 6205f67b9b68a52b3679a04553a0ddb41f6659df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 105/154] fix: rows found by several keys include child
 categories

---
 src/StarFile.nw | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index b79fc01..a54fa8a 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -2411,22 +2411,23 @@ def GetMultiKeyedSemanticPacket(self,keydict,cat_id):
     the requested category and any children."""
     #if len(keyvalues)==1:   #simplification
     #    return self.GetKeyedSemanticPacket(keydict[1][0],cat_id)
-    target_keys = self.dictionary.cat_key_table[cat_id]
+    target_keys = self.dictionary.cat_key_table[cat_id.lower()]
+    keydict = dict([(k.lower(),v) for k,v in keydict.items()])  #caller's version is unchanged
     # update the dictionary passed to us with all equivalents, for
     # simplicity.
-    parallel_keys = list(zip(*target_keys))  #transpose
+    parallel_keys = list(zip(*[[k.lower() for k in one_set] for one_set in target_keys]))  #transpose
     print('Parallel keys:' + repr(parallel_keys))
     print('Keydict:' + repr(keydict))
     start_keys = list(keydict.keys())
     for one_name in start_keys:
         key_set = [a for a in parallel_keys if one_name in a]
-        for one_key in key_set:
-            keydict[one_key] = keydict[one_name]
+        for one_key in set().union(*key_set):
+            keydict.setdefault(one_key,keydict[one_name])
     # target_keys is a list of lists, each of which is a compound key
     p = StarPacket()
     # a little function to return the dataname for a key
     def find_key(key):
-        for one_key in self.dictionary.key_equivs.get(key,[])+[key]:
+        for one_key in self.dictionary.equivalent_names(key)+self.dictionary.key_equivs.get(key,[]):
             if self.has_key(one_key):
                 return one_key
         return None
@@ -2434,7 +2435,7 @@ def GetMultiKeyedSemanticPacket(self,keydict,cat_id):
         true_keys = [find_key(k) for k in one_set]
         true_keys = [k for k in true_keys if k is not None]
         if len(true_keys)==len(one_set):
-            truekeydict = dict([(t,keydict[k]) for t,k in zip(true_keys,one_set)])
+            truekeydict = dict([(t,keydict[k.lower()]) for t,k in zip(true_keys,one_set) if k.lower() in keydict])
             try:
                 extra_packet = self.GetCompoundKeyedPacket(truekeydict)
             except KeyError:     #one or more are missing
@@ -2445,8 +2446,11 @@ def GetMultiKeyedSemanticPacket(self,keydict,cat_id):
             continue
         print('Merging packet for keys ' + repr(one_set))
         p.merge_packet(extra_packet)
-    # the following attributes used to calculate missing values
-    p.key = true_keys
+        # the following attributes used to calculate missing values
+        if "key" not in p.__dict__:
+            p.key = true_keys
+    if "key" not in p.__dict__:
+        raise StarLookupError("No key found for %s, packet is %s" % (cat_id,str(p)))
     p.cif_dictionary = self.dictionary
     p.fulldata = self
     return p
-- 
2.43.0


From 90312faf97749e38d391cc5be3217bc4a5d6d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 106/154] fix: a derived column joins its loop when the data
 use alternative names

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index e51bcbc..4d58900 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3005,7 +3005,7 @@ def store_new_looped_value(self,key,cifdata,result,default_result):
               out_result = [conv_from_numpy(a,is_array) for a in result]
       # so out_result now contains a value suitable for storage
       cat_names = [a for a in self.keys() if self[a].get("_name.category_id",None)==the_category]
-      has_cat_names = [a for a in cat_names if a in cifdata]
+      has_cat_names = [n for a in cat_names for n in self.equivalent_names(a) if n in cifdata]
       print('Adding {}, found pre-existing names: '.format(key) + repr(has_cat_names))
       if len(has_cat_names)>0:   #this category already exists
           cifdata.check_column_length(has_cat_names[0],key,out_result)  #lengths must match or else!!
-- 
2.43.0


From 3e6360ec32f1d91c2f8cc5b5acc7b9f4d5c4e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 107/154] fix: every name that gives a definition is reported
 as present in a dictionary

---
 src/CifFile_module.nw | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 4d58900..6b80468 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1213,9 +1213,10 @@ def has_key(self,key):
 
 def __contains__(self,key):
     try:
-        return key.lower() in self.block_id_table
+        if key.lower() in self.block_id_table: return True
     except AttributeError:
-        return super(CifDic,self).__contains__(key)
+        pass
+    return super(CifDic,self).__contains__(key)  #block names can be used as well
 
 def items(self):
     """Return (key,value) pairs"""
-- 
2.43.0


From 59ea5431054151b4519afd80407e150df7ea6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 108/154] fix: definitions are found by their new name after
 renaming

---
 src/CifFile_module.nw | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 6b80468..c01d68e 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1241,18 +1241,19 @@ def lock(self):
     for a in self.keys():
         self[a].overwrite=False
 
-def rename(self,oldname,newname,blockname_as_well=True):
+def rename(self,oldname,newname,blockname_as_well=True,blockname=None):
     """Change a _definition.id from oldname to newname, and if `blockname_as_well` is True,
-    change the underlying blockname too."""
+    change the underlying blockname too, to `blockname` if given."""
+    if oldname.lower() != newname.lower() and newname.lower() in self.block_id_table:
+        raise CifError('Cannot rename %s to %s as %s already exists' % (oldname,newname,newname))
+    block_id = self.block_id_table[oldname.lower()]
     if blockname_as_well:
-        super(CifDic,self).rename(self.block_id_table[oldname.lower()],newname)
-        self.block_id_table[newname.lower()]=newname
-        if oldname.lower() in self.block_id_table: #not removed
-           del self.block_id_table[oldname.lower()]
-    else:
-        self.block_id_table[newname.lower()]=self.block_id_table[oldname.lower()]
-        del self.block_id_table[oldname.lower()]
-        return
+        if blockname is None: blockname = newname
+        if blockname.lower() != block_id:    #otherwise only the case has changed
+            super(CifDic,self).rename(block_id,blockname)
+            block_id = blockname.lower()
+    self.block_id_table.pop(oldname.lower(),None)  #may have been removed already
+    self.block_id_table[newname.lower()] = block_id
 
 @ \subsection{Semantic information}
 
@@ -1379,13 +1380,22 @@ datablock names, then updating our internal structures.
 
 <<Changing and updating categories>>=
 def change_category_name(self,oldname,newname):
-    self.unlock()
     """Change the category name from [[oldname]] to [[newname]]"""
     if oldname not in self:
         raise KeyError('Cannot rename non-existent category %s to %s' % (oldname,newname))
     if newname in self:
         raise KeyError('Cannot rename %s to %s as %s already exists' % (oldname,newname,oldname))
     child_defs = self.ddlm_immediate_children(oldname)
+    new_ids = []
+    for child_def in child_defs:
+        if self[child_def].get('_definition.scope','Item')=='Item':
+            newid = self.create_catobj_name(newname,self[child_def]['_name.object_id'])
+            if newid.lower() in new_ids or (newid.lower() != child_def.lower() and newid in self):
+                raise KeyError('Cannot rename %s to %s as %s already exists' % (oldname,newname,newid))
+            new_ids.append(newid.lower())
+    if self[oldname].get('_name.category_id','').lower() == newname.lower():
+        raise CifError('Category %s cannot be in category %s' % (newname,newname))
+    self.unlock()
     self.rename(oldname,newname)   #NB no name integrity checks
     self[newname]['_name.object_id']=newname
     self[newname]['_definition.id']=newname
@@ -1394,7 +1404,7 @@ def change_category_name(self,oldname,newname):
         if self[child_def].get('_definition.scope','Item')=='Item':
             newid = self.create_catobj_name(newname,self[child_def]['_name.object_id'])
             self[child_def]['_definition.id']=newid
-            self.rename(child_def,newid[1:])  #no underscore at the beginning
+            self.rename(child_def,newid,blockname=newid[1:])  #no underscore at the beginning
     self.lock()
 
 def create_catobj_name(self,cat,obj):
@@ -1425,8 +1435,10 @@ def change_category(self,itemname,catname):
 def change_name(self,one_def,newobj):
     """Change the object_id of one_def to newobj. This is not used for
     categories, but can be used for dictionaries"""
-    if '_dictionary.title' not in self[one_def]:  #a dictionary block
+    if '_dictionary.title' not in self[one_def]:  #not a dictionary block
         newid = self.create_catobj_name(self[one_def]['_name.category_id'],newobj)
+        if newid.lower() != one_def.lower() and newid in self:
+            raise CifError('Cannot rename %s as %s already exists' % (one_def,newid))
         self.unlock()
         self.rename(one_def,newid)
         self[newid]['_definition.id']=newid
-- 
2.43.0


From c2e617ee265a6a75d477cd609a18c44339934a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 109/154] fix: the title of a dictionary can be changed

---
 src/CifFile_module.nw | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index c01d68e..0590b87 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1446,7 +1446,8 @@ def change_name(self,one_def,newobj):
     else:
         self.unlock()
         newid = newobj
-        self.rename(one_def,newobj)
+        super(CifDic,self).rename(one_def,newobj)
+        self.master_block.overwrite = True
         self[newid]['_dictionary.title'] = newid
     self.lock()
     return newid
-- 
2.43.0


From 6c588a1d0c3a1de24a8ea97bfbcfb0b9c53f541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 110/154] fix: edits of a dictionary that can not be done leave
 it unchanged

---
 src/CifFile_module.nw | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 0590b87..1d8f701 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1420,15 +1420,22 @@ def change_category(self,itemname,catname):
     if catname not in self:    #don't have it
         print('No such category %s' % catname)
         return itemname
-    self.unlock()
+    if self[catname].get('_definition.scope','Item') != 'Category':
+        raise CifError('%s is not a category' % catname)
     objid = defid['_name.object_id']
-    defid['_name.category_id'] = catname
     newid = itemname # stays the same for categories
     if defid.get('_definition.scope','Item') == 'Item':
         newid = self.create_catobj_name(catname,objid)
-        defid['_definition.id']= newid
+        if newid.lower() != itemname.lower() and newid in self:
+            raise CifError('Cannot move %s to %s as %s already exists' % (itemname,catname,newid))
+    elif self[catname]['_definition.id'].lower() in [c.lower() for c in self.ddlm_all_children(itemname)]:
+        raise CifError('Category %s cannot be moved below itself' % itemname)
+    self.unlock()
+    defid['_name.category_id'] = catname
+    if newid != itemname:
         self.rename(itemname,newid)
-    self.set_parent(catname,newid)
+        defid['_definition.id']= newid
+    self.set_parent(self.block_id_table[catname.lower()],self.block_id_table[newid.lower()])
     self.lock()
     return newid
 
@@ -1462,6 +1469,16 @@ def add_category(self,catname,catparent=None,is_loop=True,allow_dangler=False):
        is true, the parent category does not have to exist."""
     if catname in self:
         raise CifError('Attempt to add existing category %s' % catname)
+    if catparent is not None and catparent.lower() == catname.lower():
+        raise CifError('Category %s cannot be below itself' % catname)
+    if catparent is not None and (not allow_dangler or catparent in self):
+        if self.get(catparent,{}).get('_definition.scope','Item') != 'Category':
+            raise CifError('No category %s in dictionary' % catparent)
+        ancestor = catparent     #follow the categories up
+        while ancestor in self:
+            ancestor = self[ancestor].get('_name.category_id','')
+            if ancestor.lower() == catname.lower():
+                raise CifError('Category %s is already above category %s' % (catname,catparent))
     self.unlock()
     syntactic_root = self.get_roots()[0][0]
     if catparent is None:
@@ -1493,7 +1510,6 @@ def add_definition(self,itemname,catparent,def_text='PLEASE DEFINE ME',allow_dan
     """Add itemname to category [[catparent]]. If itemname contains periods,
     all text before the final period is ignored. If [[allow_dangler]] is True,
     no check for a parent category is made."""
-    self.unlock()
     if '.' in itemname:
         objname = itemname.split('.')[-1]
     else:
@@ -1503,10 +1519,13 @@ def add_definition(self,itemname,catparent,def_text='PLEASE DEFINE ME',allow_dan
         raise CifError('No category %s in dictionary' % catparent)
     fullname = '_'+catparent.lower()+'.'+objname
     print('New name: %s' % fullname)
+    if fullname in self:
+        raise CifError('Attempt to add existing definition %s' % fullname)
+    self.unlock()
     syntactic_root = self.get_roots()[0][0]
     realname = super(CifDic,self).NewBlock(fullname, fix=False, parent=syntactic_root) #low-level change
     # update our dictionary structures
-    self.block_id_table[fullname]=realname
+    self.block_id_table[fullname.lower()]=realname
     self[fullname]['_definition.id']=fullname
     self[fullname]['_name.object_id']=objname
     self[fullname]['_name.category_id']=catparent
-- 
2.43.0


From a9ad88ca4898545c9069cbe4e701dc8f64038a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 111/154] fix: dictionaries are written in order whatever their
 blocks are called

---
 src/CifFile_module.nw | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 1d8f701..e0a62ab 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3513,12 +3513,12 @@ def get_full_child_list(self):
             raise CifError('Names are children of internal and external categories:%s' % repr(double_names))
         remaining = unrooted[:]
         for no_root in unrooted:
-            if self[no_root].get('_definition.scope','Item')=='Category':
-                all_names += [no_root]
-                remaining.remove(no_root)
-                these_children = [n for n in unrooted if self[n]['_name.category_id'].lower()==no_root.lower()]
-                all_names += these_children
-                [remaining.remove(n) for n in these_children]
+            # start from the top of each tree of unrooted categories
+            if self[no_root].get('_definition.scope','Item')=='Category' and \
+               self[no_root].get('_name.category_id','').lower() not in unrooted:
+                these_names = self.recurse_child_list(no_root)
+                all_names += these_names
+                [remaining.remove(n) for n in these_names]
         # now sort by category
         ext_cats = set([self[r].get('_name.category_id',self.cat_from_name(r)).lower() for r in remaining])
         for e in ext_cats:
@@ -3529,6 +3529,8 @@ def get_full_child_list(self):
             print('WARNING: following items do not seem to belong to a category??')
             print(repr(remaining))
             all_names += remaining
+        # provide the names of the blocks
+        all_names = [all_names[0]] + [self.block_id_table[a.lower()] for a in all_names[1:]]
         print('Final block order: ' + repr(all_names))
         return all_names
     raise ValueError('Dictionary contains no/multiple Head categories, please print as plain CIF instead')
@@ -3543,7 +3545,7 @@ def cat_from_name(self,one_name):
 def recurse_child_list(self,parentname):
     """Recursively expand the logical child list of [[parentname]]"""
     final_list = [parentname]
-    child_blocks = [a for a in self.child_table.keys() if self[a].get('_name.category_id','').lower() == parentname.lower()]
+    child_blocks = self.ddlm_immediate_children(parentname)
     child_blocks.sort()    #we love alphabetical order
     child_items = [a for a in child_blocks if self[a].get('_definition.scope','Item') == 'Item']
     final_list += child_items
-- 
2.43.0


From 877806ecb0e351a33574ff12445d7168d91ae91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 112/154] fix: category and object names are up to date after
 dictionary edits

---
 src/CifFile_module.nw | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index e0a62ab..ddc58d1 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1034,6 +1034,24 @@ an alias table to speed up lookup.  The table is indexed by true name, with a li
 alternatives.
 
 <<Create alias table>>=
+def forget_tables(self):
+    """Lookup tables are no longer correct after definitions have been renamed, moved,
+    added or removed. They will be recalculated when they are needed next"""
+    for table in ('alias_table','cat_obj_lookup_table','loop_expand_list','cat_key_table'):
+        self.__dict__.pop(table,None)
+
+def __getattr__(self,attname):
+    """Calculate lookup tables when they are needed"""
+    if attname == 'alias_table':
+        self.create_alias_table()
+    elif attname in ('cat_obj_lookup_table','loop_expand_list'):
+        self.create_cat_obj_table()
+    elif attname == 'cat_key_table':
+        self.create_cat_key_table()
+    else:
+        raise AttributeError(attname)
+    return self.__dict__[attname]
+
 def create_alias_table(self):
     """Populate an alias table that we can look up when searching for a dataname"""
     all_aliases = [a for a in self.keys() if '_alias.definition_id' in self[a]]
@@ -1254,6 +1272,7 @@ def rename(self,oldname,newname,blockname_as_well=True,blockname=None):
             block_id = blockname.lower()
     self.block_id_table.pop(oldname.lower(),None)  #may have been removed already
     self.block_id_table[newname.lower()] = block_id
+    self.forget_tables()
 
 @ \subsection{Semantic information}
 
@@ -1436,6 +1455,7 @@ def change_category(self,itemname,catname):
         self.rename(itemname,newid)
         defid['_definition.id']= newid
     self.set_parent(self.block_id_table[catname.lower()],self.block_id_table[newid.lower()])
+    self.forget_tables()
     self.lock()
     return newid
 
@@ -1503,6 +1523,7 @@ def add_category(self,catname,catparent=None,is_loop=True,allow_dangler=False):
     else:
         self[catname]['_definition.class'] = 'Set'
     self[catname]['_description.text'] = 'No definition provided'
+    self.forget_tables()
     self.lock()
     return catname
 
@@ -1531,6 +1552,7 @@ def add_definition(self,itemname,catparent,def_text='PLEASE DEFINE ME',allow_dan
     self[fullname]['_name.category_id']=catparent
     self[fullname]['_definition.class']='Datum'
     self[fullname]['_description.text']=def_text
+    self.forget_tables()
     return realname
 
 def remove_definition(self,defname):
@@ -1542,6 +1564,7 @@ def remove_definition(self,defname):
         [self.remove_definition(a) for a in children]
         cat_id = self[defname]['_definition.id'].lower()
     del self[defname]
+    self.forget_tables()
 
 @ The DDLm architecture identifies a data definition by (category,object) which
 identifies a unique textual dataname appearing in the data file.  Because of category
-- 
2.43.0


From 22ff9f523d0f4ed58e7ba0c340bfe7afa27c7c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 113/154] fix: dictionaries that import can be imported without
 overwriting definitions

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index ddc58d1..e278664 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1725,8 +1725,8 @@ def obtain_imports(self,import_mode,heavy=False):
         file_loc = import_ref["file"]
         full_uri = self.resolve_path(file_loc)
         if full_uri not in self.template_cache:
-            dic_as_cif = CifFile(full_uri,grammar=self.grammar, characterset=self.characterset)
-            self.template_cache[full_uri] = CifDic(dic_as_cif,do_imports=import_mode,heavy=heavy,do_dREL=False)  #this will recurse internal imports
+            self.template_cache[full_uri] = CifDic(full_uri,grammar=self.grammar,characterset=self.characterset,
+                                                   do_imports=import_mode,heavy=heavy,do_dREL=False)  #this will recurse internal imports
             print('Added %s to cached dictionaries' % full_uri)
         import_from = self.template_cache[full_uri]
         dupl = import_ref.get('dupl','Exit')
-- 
2.43.0


From 134ea4a1cfc226b38f7869bc9495e3060096ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 114/154] fix: definitions in imported dictionaries are found
 in any case

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index e278664..4acba9d 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1849,7 +1849,7 @@ def lookup_imports(self,key):
     for one_dic,head_def in self._import_dics:
         from_cat_head = one_dic[head_def]['_name.object_id']
         possible_keys = one_dic.ddlm_all_children(from_cat_head)
-        if key in possible_keys:
+        if key.lower() in [k.lower() for k in possible_keys]:
             return one_dic[key]
     raise KeyError("%s not found in import dictionaries" % key)
     
-- 
2.43.0


From ef11a3e063b10a06cbc700cce74e027c155437aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 115/154] fix: imported attributes can be obtained with a
 default

---
 src/CifFile_module.nw | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 4acba9d..4b1f2f8 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -470,6 +470,12 @@ class DicBlock(StarFile.StarBlock):
             return False
         return True
     
+    def get(self,key,default=None):
+        try:
+            return self[key]
+        except KeyError:
+            return default
+
     def add_dict_cache(self,name,cached):
         """Add a loaded dictionary to this block's cache"""
         self._import_cache[name]=cached
-- 
2.43.0


From a3b5a32b646492bd53e26628ecd04729f21f5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 116/154] fix: attributes can be looked up when an imported
 frame is missing

---
 src/CifFile_module.nw | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 4b1f2f8..69d6528 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -485,11 +485,14 @@ class DicBlock(StarFile.StarBlock):
         is a list of import locations"""
         latest_value = None
         for import_ref in import_info:
+            if import_ref.get("mode",'Contents').lower() != "contents":   #only this is used at this level
+                continue
             file_loc = import_ref["file"]
+            miss = import_ref.get('miss','Exit')
             if file_loc not in self._import_cache:
+                if miss != 'Exit': continue   #the import frame was not found
                 raise ValueError("Dictionary for import %s not found" % file_loc)
             import_from = self._import_cache[file_loc]
-            miss = import_ref.get('miss','Exit')
             target_key = import_ref["save"]
             try:
                 import_target = import_from[target_key]
@@ -498,9 +501,7 @@ class DicBlock(StarFile.StarBlock):
                     raise CifError('Import frame %s not found in %s' % (target_key,file_loc))
                 else: continue
             # now import appropriately
-            mode = import_ref.get("mode",'Contents').lower()
-            if mode == "contents":   #only this is used at this level
-                latest_value = import_target.get(dataname,latest_value)
+            latest_value = import_target.get(dataname,latest_value)
         return latest_value
     
 @ \subsection {Initialisation}
-- 
2.43.0


From d1407df9d2f3afa363b98ed8c6918533e0230d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 117/154] fix: a single category can be imported together with
 its children

---
 src/CifFile_module.nw | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 69d6528..83efb7e 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1777,7 +1777,6 @@ def ddlm_import(self,parent_block,import_from,import_target,target_key,mode='All
                   head_to_head = True
             else:
                   head_to_head = False
-                  child_frames.remove(from_cat_head)
             # As we are in syntax land, we call the CifFile methods
             child_blocks = list([import_from.block_id_table[a.lower()] for a in child_frames])
             child_blocks = super(CifDic,import_from).makebc(child_blocks)
@@ -1807,7 +1806,9 @@ def ddlm_import(self,parent_block,import_from,import_target,target_key,mode='All
             else:  #imported category is only child
                 from_frame = import_from[target_key]['_definition.id'] #so we can find it
                 child_frame = [d for d in self.keys() if self[d]['_definition.id']==from_frame][0]
+                self[child_frame].overwrite = True
                 self[child_frame]['_name.category_id'] = merging_cat
+                self[child_frame].overwrite = False
                 print('Semantic merge: category for %s : now %s' % (from_frame,merging_cat))
         # it will never happen again...
         del self[parent_block]["_import.get"]
@@ -1842,7 +1843,9 @@ def ddlm_import_light(self,parent_block,import_from,import_target,target_key,fil
         merging_cat = self[parent_block]['_name.object_id']
         from_cat_head = import_target['_name.object_id']
         if not head_to_head:   # imported category is only child
+            import_target.overwrite = True
             import_target["_name.category_id"]=merging_cat
+            import_target.overwrite = False
         self._import_dics = [(import_from,head_id)]+self._import_dics #prepend
 
 @ Lightweight importation simply records the import information without performing the
-- 
2.43.0


From d09772b9271bc89f9cb93f3b699ab94b10b0daa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 118/154] fix: importing can replace a definition that is
 already there

---
 src/CifFile_module.nw | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 83efb7e..2566cb6 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1747,11 +1747,14 @@ def obtain_imports(self,import_mode,heavy=False):
             else: continue
         # now import appropriately
         mode = import_ref.get("mode",'Contents').lower()
-        if target_key in self and mode=='full':  #so blockname will be duplicated
+        target_id = import_target.get('_definition.id',target_key)
+        if target_id in self and mode=='full':  #so blockname will be duplicated
             if dupl == 'Exit':
                 raise CifError('Import frame %s already in dictionary' % target_key)
             elif dupl == 'Ignore':
                 continue
+            elif dupl == 'Replace' and target_id.lower() != parent_block.lower():
+                del self[target_id]
         if heavy:
             self.ddlm_import(parent_block,import_from,import_target,target_key,mode)
         else:
-- 
2.43.0


From 96ae858465ae349885afc6b008fc7249099fb102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 119/154] fix: a single item definition can be imported

---
 src/CifFile_module.nw | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 2566cb6..ceb21c3 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1773,7 +1773,10 @@ def ddlm_import(self,parent_block,import_from,import_target,target_key,mode='All
             # Do the syntactic merge
             syntactic_head = self[self.get_parent(parent_block)] #root frame if no nesting
             from_cat_head = import_target['_name.object_id']
-            child_frames = import_from.ddlm_all_children(from_cat_head)
+            if import_target.get('_definition.scope','Item') == 'Category':
+                child_frames = import_from.ddlm_all_children(from_cat_head)
+            else:
+                child_frames = [import_target['_definition.id']]
              # Check for Head merging Head
             if self[parent_block].get('_definition.class','Datum')=='Head' and \
                import_target.get('_definition.class','Datum')=='Head':
@@ -1860,8 +1863,11 @@ checked, as imports overwrite any definitions in preceding imports.
 def lookup_imports(self,key):
     """Check the list of imported dictionaries for this definition"""
     for one_dic,head_def in self._import_dics:
-        from_cat_head = one_dic[head_def]['_name.object_id']
-        possible_keys = one_dic.ddlm_all_children(from_cat_head)
+        if one_dic[head_def].get('_definition.scope','Item') == 'Category':
+            from_cat_head = one_dic[head_def]['_name.object_id']
+            possible_keys = one_dic.ddlm_all_children(from_cat_head)
+        else:
+            possible_keys = [head_def]
         if key.lower() in [k.lower() for k in possible_keys]:
             return one_dic[key]
     raise KeyError("%s not found in import dictionaries" % key)
-- 
2.43.0


From 9e3a6fb9a77f858d3217b14fa06e0764b7960e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 120/154] fix: definitions that imported dictionaries import
 are found

---
 src/CifFile_module.nw | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index ceb21c3..70ded20 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1852,7 +1852,7 @@ def ddlm_import_light(self,parent_block,import_from,import_target,target_key,fil
             import_target.overwrite = True
             import_target["_name.category_id"]=merging_cat
             import_target.overwrite = False
-        self._import_dics = [(import_from,head_id)]+self._import_dics #prepend
+        self._import_dics = [(import_from,head_id,parent_block)]+self._import_dics #prepend
 
 @ Lightweight importation simply records the import information without performing the
 import, and then when keys are accessed it checks through the imported dictionaries. The
@@ -1860,16 +1860,24 @@ semantics are such that the last dictionary imported should be the first diction
 checked, as imports overwrite any definitions in preceding imports.
         
 <<Lookup imports for whole dictionary>>=
-def lookup_imports(self,key):
-    """Check the list of imported dictionaries for this definition"""
-    for one_dic,head_def in self._import_dics:
+def lookup_imports(self,key,below=None):
+    """Check the list of imported dictionaries for this definition. If `below` is
+    given, only those imported by one of the definitions in `below` are checked"""
+    for one_dic,head_def,importer in self._import_dics:
+        if below is not None and importer.lower() not in below:
+            continue
         if one_dic[head_def].get('_definition.scope','Item') == 'Category':
             from_cat_head = one_dic[head_def]['_name.object_id']
             possible_keys = one_dic.ddlm_all_children(from_cat_head)
         else:
             possible_keys = [head_def]
-        if key.lower() in [k.lower() for k in possible_keys]:
+        possible_keys = [k.lower() for k in possible_keys]
+        if key.lower() in possible_keys:
             return one_dic[key]
+        try:               # they may have been imported in turn
+            return one_dic.lookup_imports(key,below=possible_keys)
+        except KeyError:
+            continue
     raise KeyError("%s not found in import dictionaries" % key)
     
 @ Merging a whole dictionary.  A dictionary is a collection of categories for
-- 
2.43.0


From 8791f64a5e0e725e745e555de795677dc6e7e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 121/154] fix: dictionary edits accept every name by which a
 definition is found

---
 src/CifFile_module.nw | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 70ded20..666a7bf 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -1220,8 +1220,10 @@ def __delitem__(self,key):
     try:
         super(CifDic,self).__delitem__(self.block_id_table[key.lower()])
         del self.block_id_table[key.lower()]
-    except (AttributeError,KeyError):   #block_id_table not present yet
+    except (AttributeError,KeyError):   #block_id_table not present yet, or a block name
         super(CifDic,self).__delitem__(key)
+        for defid in [d for d,b in self.__dict__.get('block_id_table',{}).items() if b.lower() == key.lower()]:
+            del self.block_id_table[defid]
         return
     # fix other datastructures
     # cat_obj table
@@ -1411,6 +1413,7 @@ def change_category_name(self,oldname,newname):
         raise KeyError('Cannot rename non-existent category %s to %s' % (oldname,newname))
     if newname in self:
         raise KeyError('Cannot rename %s to %s as %s already exists' % (oldname,newname,oldname))
+    oldname = self[oldname]['_definition.id']
     child_defs = self.ddlm_immediate_children(oldname)
     new_ids = []
     for child_def in child_defs:
@@ -1448,6 +1451,7 @@ def change_category(self,itemname,catname):
         return itemname
     if self[catname].get('_definition.scope','Item') != 'Category':
         raise CifError('%s is not a category' % catname)
+    itemname = defid['_definition.id']
     objid = defid['_name.object_id']
     newid = itemname # stays the same for categories
     if defid.get('_definition.scope','Item') == 'Item':
@@ -1470,6 +1474,7 @@ def change_name(self,one_def,newobj):
     """Change the object_id of one_def to newobj. This is not used for
     categories, but can be used for dictionaries"""
     if '_dictionary.title' not in self[one_def]:  #not a dictionary block
+        one_def = self[one_def]['_definition.id']
         newid = self.create_catobj_name(self[one_def]['_name.category_id'],newobj)
         if newid.lower() != one_def.lower() and newid in self:
             raise CifError('Cannot rename %s as %s already exists' % (one_def,newid))
@@ -1566,6 +1571,7 @@ def remove_definition(self,defname):
     """Remove a definition from the dictionary."""
     if defname not in self:
         return
+    defname = self[defname].get('_definition.id',defname)
     if self[defname].get('_definition.scope')=='Category':
         children = self.ddlm_immediate_children(defname)
         [self.remove_definition(a) for a in children]
-- 
2.43.0


From ccd887d59fae5bdf949608584e9647422c664e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 122/154] fix: a validation result can say whether all blocks
 are valid

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 666a7bf..f3bad18 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3929,7 +3929,7 @@ class ValidationResult:
         if block_name is not None:
             block_names = [block_name]
         else:
-            block_names = self.valid_result.iterkeys()
+            block_names = self.valid_result.keys()
         for block_name in block_names:
             if not self.valid_result[block_name] == (True,{}):
                 valid = False
@@ -3943,7 +3943,7 @@ class ValidationResult:
         if block_name is not None:
             block_names = [block_name]
         else:
-            block_names = self.no_matches.iter_keys()
+            block_names = self.no_matches.keys()
         for block_name in block_names:
             if self.no_matches[block_name]:
                 has_no_match_items = True
-- 
2.43.0


From ddd74df39368740f7a075ebd0dad05002f279f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 123/154] fix: values are compared with the whole expression
 for their type

---
 src/CifFile_module.nw | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index f3bad18..f0e0b0c 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -750,7 +750,7 @@ def DDL1_normalise(self):
        #add any type construct information
        if "_type_construct" in value:
            base_types.append(value["_name"]+"_type")   #ie dataname_type
-           base_constructs.append(value["_type_construct"]+"$")
+           base_constructs.append(value["_type_construct"])
            prim_types.append(value["_type"])     #keep a record
            value["_type"] = base_types[-1]   #the new type name
 
@@ -2064,20 +2064,13 @@ keys depending on the type of error.
 
 We use the expressions for type that we have available to check that
 the type of the item passed to us matches up.  We may have a list of
-items, so be aware of that.  We define a tiny matching function so
-that we do not have to do a double match to catch the non-matching
-case, which returns None and thus an attribute error if we immediately
-try to get a group.
+items, so be aware of that.
 
 Note also that none of the extant dictionaries use the 'none' or 'seq'
 values for type.  The seq value in particular would complicate matters.
 
 <<Validate the type of an item (DDL1/2)>>=
 def validate_item_type(self,item_name,item_value):
-    def mymatch(m,a):
-        res = m.match(a)
-        if res != None: return res.group()
-        else: return ""
     target_type = self[item_name].get(self.type_spec)
     if target_type == None:          # e.g. a category definition
         return {"result":True}                  # not restricted in any way
@@ -2087,7 +2080,7 @@ def validate_item_type(self,item_name,item_value):
         #print("Type match " + item_name + " " + item + ":",)
     #skip dots and question marks
     check_all = [a for a in item_values if a !="." and a != "?"]
-    check_all = [a for a in check_all if mymatch(matchexpr,a) != a]
+    check_all = [a for a in check_all if matchexpr.match(a) is None]
     if len(check_all)>0: return {"result":False,"bad_values":check_all}
     else: return {"result":True}
 
@@ -2797,8 +2790,8 @@ reading/writing will catch any char violations.
 
 Note that the python re engine is not POSIX compliant in that it will
 not return the longest leftmost match, but rather the first leftmost
-match.  John Bollinger suggested an obvious fix: we append a [[$]] to force
-a full match.
+match.  John Bollinger suggested an obvious fix: we append an end of string to force
+a full match, and enclose the expression as it might contain alternatives.
 
 In other regexp editing, the [[\{]] sequence inside the character sets of
 some of the regexps is actually interpreted as an escaped bracket, so the
@@ -2818,7 +2811,7 @@ def add_type_info(self):
     if "_item_type_list.construct" in self.master_block:
         types = self.master_block["_item_type_list.code"]
         prim_types = self.master_block["_item_type_list.primitive_code"]
-        constructs = list([a + "$" for a in self.master_block["_item_type_list.construct"]])
+        constructs = list(["(?:" + a + r")\Z" for a in self.master_block["_item_type_list.construct"]])
         # add in \r wherever we see \n, and change \{ to \\{
         def regex_fiddle(mm_regex):
             brack_match = r"((.*\[.+)(\\{)(.*\].*))"
-- 
2.43.0


From 21c2db0045cdaefe49921aab03d1c8541c442dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 124/154] fix: numbers with a plus sign or with an uncertainty
 after the exponent are valid numbers

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index f0e0b0c..1778a90 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -712,7 +712,7 @@ def DDL1_normalise(self):
     base_types = ["char","numb","null"]
     prim_types = base_types[:]
     base_constructs = [".*",
-        '(-?(([0-9]*[.][0-9]+)|([0-9]+)[.]?)([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?)|\\?|\\.',
+        '([+-]?(([0-9]*[.][0-9]+)|([0-9]+)[.]?)(([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?|[eEdD][+-]?[0-9]+[(][0-9]+[)]))|\\?|\\.',
         "\"\" "]
     for key,value in self.items():
        newnames = [key]  #keep by default
@@ -3522,7 +3522,7 @@ now.
 
 <<Analyse range>>=
 def getmaxmin(self,rangeexp):
-    regexp = '(-?(([0-9]*[.]([0-9]+))|([0-9]+)[.]?)([eEdD][+-]?[0-9]+)?)*'
+    regexp = '([+-]?(([0-9]*[.]([0-9]+))|([0-9]+)[.]?)([eEdD][+-]?[0-9]+)?)*'
     regexp = regexp + ":" + regexp
     regexp = re.match(regexp,rangeexp)
     try:
-- 
2.43.0


From 926029c52a734277ddecb5cdd833188b09adea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 125/154] fix: an enumeration can have a single value

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 1778a90..4be9633 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2195,7 +2195,7 @@ will probably have a mismatch.
 <<Validate an enumeration>>=
 def validate_item_enum(self,item_name,item_value):
     try:
-        enum_list = self[item_name][self.enum_spec][:]
+        enum_list = listify(self[item_name][self.enum_spec])[:]
     except KeyError:
         return {"result":None}
     enum_list.append(".")   #default value
-- 
2.43.0


From 4468a7f3f7ba622609d07c7747f8e2e121392898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 126/154] fix: a loop needs a name that starts like the
 reference of its items

---
 src/CifFile_module.nw | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 4be9633..db4c97f 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2346,8 +2346,9 @@ def validate_loop_references(self,loop_names):
         nl = map(lambda a:a[:len(s_item)],name_list)
         if s_item in nl: return True
         return False
-    res_g = [a for a in group_mh if check_gr(a,loop_names)]
-    if len(res) == 0 and len(res_g) == 0: return {"result":True}
+    res_g = [a for a in group_mh if not check_gr(a,loop_names)]
+    if len(res_g) > 0: return {"result":False,"bad_items":set(res_g)}
+    if len(res) == 0: return {"result":True}
     # construct alternate list
     alternates = [(a,self.get_alternates(a)) for a in res]
     real_alternates = [a for a in alternates if len(a[1]) != 0]
-- 
2.43.0


From b9b3b5aeb6776bb8a415c4ce1a15cea524d849f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 127/154] fix: definitions can refer to names of other
 dictionaries when validating

---
 src/CifFile_module.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index db4c97f..e200e36 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2383,6 +2383,8 @@ are not present at the same time in a data file.
 
 <<Get alternative item names>>=
 def get_alternates(self,main_name,exclusive_only=False):
+    if main_name not in self:   # defined in some other dictionary
+        return []
     alternates = self[main_name].get(self.related_func,None)
     alt_names = []
     if alternates != None:
-- 
2.43.0


From 1ffa7a60fa300f12c20a50142c1db6aef011ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 128/154] fix: alternative names are recognised in any case
 when validating

---
 src/CifFile_module.nw | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index e200e36..b6d84e3 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2402,6 +2402,7 @@ def get_alternates(self,main_name,exclusive_only=False):
     # now do the alias thing
     alias_names = listify(self[main_name].get("_item_aliases.alias_name",[]))
     alt_names.extend(alias_names)
+    alt_names = [a.lower() for a in alt_names]
     # print("Alternates for {}: {!r}".format(main_name, alt_names))
     return alt_names
 
-- 
2.43.0


From 36d695405b14dadbc0a99297086ed4d167b0b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 129/154] fix: names from several categories can not share a
 loop in DDL1 and DDL2

---
 src/CifFile_module.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index b6d84e3..aeb518d 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2269,6 +2269,8 @@ def get_final_cats(self,loop_names):
         categories = [self[a][self.cat_spec].lower() for a in loop_names]
     except KeyError:       #category_id is mandatory
         raise ValidCifError( "%s missing from dictionary %s for item in loop containing %s" % (self.cat_spec,self.dicname,loop_names[0]))
+    if self.diclang != 'DDLm':    # a flat list of categories
+        return categories
     truly_looped = [a for a in categories if a in self.parent_lookup.keys()]
     return [self.parent_lookup[a] for a in truly_looped]
 
-- 
2.43.0


From 87fdc7cc8ee3c9cf0be89ba8251e52d37559f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 130/154] fix: unique values are checked whatever the case of
 the names

---
 src/CifFile_module.nw | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index aeb518d..d1bd29e 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2623,9 +2623,8 @@ def validate_uniqueness(self,item_name,item_value,whole_block,provisional_items=
         return {"result":None}
     # print("Category {!r} for item {}".format(category, item_name))
     # we make a copy in the following as we will be removing stuff later!
-    unique_i = self[category].get("_category_key.name",[])[:]
-    if isinstance(unique_i,unicode):
-        unique_i = [unique_i]
+    unique_i = [a.lower() for a in listify(self[category].get("_category_key.name",[]))]
+    item_name = item_name.lower()
     if item_name not in unique_i:       #no need to verify
         return {"result":None}
     if isinstance(item_value,unicode):  #not looped
-- 
2.43.0


From fc20b958b5ebe91403c1eb2ecdbf7dc80944bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 131/154] fix: combinations of values are compared value by
 value for uniqueness

---
 src/CifFile_module.nw | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index d1bd29e..a696a5b 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2654,17 +2654,17 @@ def validate_uniqueness(self,item_name,item_value,whole_block,provisional_items=
            else:
                return {"result":False,"bad_items":other_name}#missing data name
     # ok, so we go through all of our values
-    # this works by comparing lists of strings to one other, and
+    # this works by comparing tuples of strings to one other, and
     # so could be fooled if you think that '1.' and '1' are
     # identical
     for i in range(len(item_value)):
         #print("Value no. %d" % i, end=" ")
-        this_entry = item_value[i]
+        this_entry = (item_value[i],)
         for j in range(len(other_data)):
-            this_entry = " ".join([this_entry,other_data[j][i]])
+            this_entry = this_entry + (other_data[j][i],)
         #print("Looking for {!r} in {!r}: ".format(this_entry, val_list))
         if this_entry in val_list:
-            return {"result":False,"bad_values":this_entry}
+            return {"result":False,"bad_values":" ".join(this_entry)}
         val_list.append(this_entry)
     return {"result":True}
 
-- 
2.43.0


From d5c4e0fe5674abf58ed09ee75b8ee3ec3601fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 132/154] fix: validation leaves the items that are not in the
 dictionary in the file

---
 src/CifFile_module.nw | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index a696a5b..9711153 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4000,12 +4000,13 @@ def Validate(ciffile,dic = "", diclist=[],mergemode="replace",isdic=False):
         else:
            block_scope = 'Datablock'
         no_matches[block] = [a for a in check_file[block].keys() if a not in fulldic]
-        # remove non-matching items
+        # remove non-matching items from a copy
         print("Not matched: " + repr(no_matches[block]))
+        check_block = check_file[block].copy()
         for nogood in no_matches[block]:
-             del check_file[block][nogood]
+             del check_block[nogood]
         print("Validating block %s, scope %s" % (block,block_scope))
-        valid_result[block] = run_data_checks(check_file[block],fulldic,block_scope=block_scope)
+        valid_result[block] = run_data_checks(check_block,fulldic,block_scope=block_scope)
     return valid_result,no_matches
 
 def validate_report(val_result,use_html=False):
-- 
2.43.0


From 4393a5911532bf1b377095e21a9bbdfe5a89bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 133/154] fix: every child item is checked against its parent
 when optimising

---
 src/CifFile_module.nw | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 9711153..183396a 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2467,10 +2467,10 @@ def validate_parent(self,item_name,item_value,whole_block,provisional_items={},g
     if isinstance(parent_item,list):
         parent_item = parent_item[0]
     if self.optimize:
-        if parent_item in self.done_parents:
+        if (parent_item,item_name) in self.done_parents:
             return {"result":None}
         else:
-            self.done_parents.append(parent_item)
+            self.done_parents.append((parent_item,item_name))
             print("Done parents %s" % repr(self.done_parents))
     # initialise parent/child values
     if isinstance(item_value,unicode):
@@ -2528,10 +2528,10 @@ def validate_child(self,item_name,item_value,whole_block,provisional_items={},gl
     # now loop over the children
     for child_item in child_items:
         if self.optimize:
-            if child_item in self.done_children:
-                return {"result":None}
+            if (item_name,child_item) in self.done_children:
+                continue
             else:
-                self.done_children.append(child_item)
+                self.done_children.append((item_name,child_item))
                 print("Done children %s" % repr(self.done_children))
         if child_item in provisional_items:
             child_values = provisional_items[child_item][:]
-- 
2.43.0


From 1f7e631eae7e9293c3b9d8bc50baafe6dd3402a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 134/154] fix: items that are unique together must be looped
 together

---
 src/CifFile_module.nw | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 183396a..51fdb9f 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2653,6 +2653,9 @@ def validate_uniqueness(self,item_name,item_value,whole_block,provisional_items=
                other_data.append([item_name]*len(item_value))  #placeholder
            else:
                return {"result":False,"bad_items":other_name}#missing data name
+           # the values must be found in the same packets
+           if not isinstance(other_data[-1],list) or len(other_data[-1])!=len(item_value):
+               return {"result":False,"bad_items":other_name}
     # ok, so we go through all of our values
     # this works by comparing tuples of strings to one other, and
     # so could be fooled if you think that '1.' and '1' are
-- 
2.43.0


From 59a89280921136ca1d99f28b1243e4afcd6724c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 135/154] fix: a DDLm loop can have the key of a child
 category, in any case

---
 src/CifFile_module.nw | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 51fdb9f..e7228f9 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2312,8 +2312,10 @@ def validate_loop_key_ddlm(self,loop_names):
     """Make sure at least one of the necessary keys are available"""
     final_cats = self.get_final_cats(loop_names)
     if len(final_cats)>0:
-        poss_keys = self.cat_key_table[final_cats[0]][0] # 
-        found_keys = [a for a in poss_keys if a in loop_names]
+        # keys of the uppermost category and of all of its child categories
+        poss_keys = [a for key in self.cat_key_table[final_cats[0]] for a in key]
+        lower_names = [a.lower() for a in loop_names]
+        found_keys = [a for a in poss_keys if a is not None and a.lower() in lower_names]
         if len(found_keys)>0:
             return {"result":True}
         else:
-- 
2.43.0


From 2181a8d286c7875142d422de5488242b75f2f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 136/154] fix: the elements of compound values are compared
 with the enumeration

---
 src/CifFile_module.nw | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index e7228f9..d9feeae 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2200,7 +2200,15 @@ def validate_item_enum(self,item_name,item_value):
         return {"result":None}
     enum_list.append(".")   #default value
     enum_list.append("?")   #unknown
-    item_values = listify(item_value)
+    # DDLm values might be compound
+    def single_values(values):
+        for a in values:
+            if isinstance(a,(list,tuple)):
+                for b in single_values(a): yield b
+            elif hasattr(a,"values"):
+                for b in single_values(a.values()): yield b
+            else: yield a
+    item_values = list(single_values([item_value]))
     #print("Enum check: {!r} in {!r}".format(item_values, enum_list))
     check_all = [a for a in item_values if a not in enum_list]
     if len(check_all)>0: return {"result":False,"bad_values":check_all}
-- 
2.43.0


From fdb22667b5a9ad3d00fae2764b9e43659769115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 137/154] fix: enumerated codes are compared without regard to
 case in DDLm

---
 src/CifFile_module.nw | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index d9feeae..8162a39 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2211,6 +2211,10 @@ def validate_item_enum(self,item_name,item_value):
     item_values = list(single_values([item_value]))
     #print("Enum check: {!r} in {!r}".format(item_values, enum_list))
     check_all = [a for a in item_values if a not in enum_list]
+    # codes are case-insensitive in DDLm
+    if self.diclang == "DDLm" and self[item_name].get("_type.contents") in ("Code","Name","Tag"):
+        lower_enum = [a.lower() for a in enum_list]
+        check_all = [a for a in check_all if a.lower() not in lower_enum]
     if len(check_all)>0: return {"result":False,"bad_values":check_all}
     else: return {"result":True}
 
-- 
2.43.0


From 9f76c633ac665ed3cf569e414b7ad4511bc004a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 138/154] fix: a dictionary need not restrict the contents of
 every scope

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 8162a39..a5520cb 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2736,7 +2736,7 @@ def check_mandatory_items(self,whole_block,default_scope='Item'):
     scope = whole_block.get('_definition.scope',default_scope)
     if '_dictionary.title' in whole_block:
        scope = 'Dictionary'
-    missing = list([a for a in self.scopes_mandatory[scope] if a not in whole_block])
+    missing = list([a for a in self.scopes_mandatory.get(scope,[]) if a not in whole_block])
     if len(missing)==0:
         return {"result":True}
     else:
@@ -2751,7 +2751,7 @@ def check_prohibited_items(self,whole_block,default_scope='Item'):
     scope = whole_block.get('_definition.scope',default_scope)
     if '_dictionary.title' in whole_block:
        scope = 'Dictionary'
-    present = list([a for a in self.scopes_naughty[scope] if a in whole_block])
+    present = list([a for a in self.scopes_naughty.get(scope,[]) if a in whole_block])
     if len(present)==0:
         return {"result":True}
     else:
-- 
2.43.0


From db4f0f3ee6aaae988ac2807774cdf2497982301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 139/154] fix: attributes that definitions need are not needed
 in data

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index a5520cb..266a98d 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2707,7 +2707,7 @@ which then assumes that the alternative routine will be used to set the
 error information on a dictionary-wide basis.
 
 <<Validate category presence>>=
-def validate_mandatory_category(self,whole_block):
+def validate_mandatory_category(self,whole_block,default_scope='Item'):
     mand_cats = [self[a]['_category.id'] for a in self.keys() if self[a].get("_category.mandatory_code","no")=="yes"]
     if len(mand_cats) == 0:
         return {"result":True}
@@ -2775,7 +2775,7 @@ def run_global_validation(self,item_name,item_value,data_block,provisional_items
     return {item_name:results}
 
 def run_block_validation(self,whole_block,block_scope='Item'):
-    results = list([(f.__name__,f(whole_block)) for f in self.block_validation_funs])
+    results = list([(f.__name__,f(whole_block,block_scope)) for f in self.block_validation_funs])
     # fix up the return values
     return {"whole_block":results}
 
-- 
2.43.0


From 1650ce4767427be40096f185e60c12be06044079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 140/154] fix: validating a dictionary does not change which of
 its blocks are visible

---
 src/CifFile_module.nw | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 266a98d..1d53317 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -3994,6 +3994,7 @@ def Validate(ciffile,dic = "", diclist=[],mergemode="replace",isdic=False):
         fulldic = dic
     no_matches = {}
     valid_result = {}
+    save_scoping = check_file.scoping
     if isdic:          #assume one block only
         check_file.scoping = 'instance' #only data blocks visible
         top_level = check_file.keys()[0]
@@ -4024,6 +4025,7 @@ def Validate(ciffile,dic = "", diclist=[],mergemode="replace",isdic=False):
              del check_block[nogood]
         print("Validating block %s, scope %s" % (block,block_scope))
         valid_result[block] = run_data_checks(check_block,fulldic,block_scope=block_scope)
+    check_file.scoping = save_scoping
     return valid_result,no_matches
 
 def validate_report(val_result,use_html=False):
-- 
2.43.0


From a76ee160c4b62890792d7aaa437070a5fcf566c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 141/154] fix: validate_cif can use several local dictionaries

---
 src/Programs/validate_cif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Programs/validate_cif.py b/src/Programs/validate_cif.py
index 1fc6768..0324e7c 100644
--- a/src/Programs/validate_cif.py
+++ b/src/Programs/validate_cif.py
@@ -98,7 +98,7 @@ def execute_with_options(options,args):
         diclist = list(map(lambda a:os.path.join(options.dirname,a),options.dictnames))
         print( "Using following local dictionaries to validate:")
         for dic in diclist: print( "%s" % dic)
-        fulldic = CifFile.CifFile_module.merge_dic(diclist,mergemode='overlay')
+        fulldic = CifFile.CifFile_module.merge_dic(diclist,mergemode='replace')
     else:
         # print( "Locating dictionaries using registry at %s" % options.registry)
         dics = zip(options.iucr_names,options.versions)
-- 
2.43.0


From 2e573564214480460cd0a768d26666a842c77539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 142/154] fix: validate_cif lists the dictionaries found in the
 registry

---
 src/Programs/validate_cif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Programs/validate_cif.py b/src/Programs/validate_cif.py
index 0324e7c..19c9652 100644
--- a/src/Programs/validate_cif.py
+++ b/src/Programs/validate_cif.py
@@ -53,7 +53,7 @@ def locate_dic(dicname,dicversion,regloc="cifdic.register",store_dir = "."):
         return ""
     elif len(matches)>1:
         print( "Warning: found more than one candidate, choosing first.")
-        print( map(str,matches))
+        print( list(map(str,matches)))
     return getattr(matches[0],"_cifdic_dictionary.URL")    # the location
 
 
@@ -102,7 +102,7 @@ def execute_with_options(options,args):
     else:
         # print( "Locating dictionaries using registry at %s" % options.registry)
         dics = zip(options.iucr_names,options.versions)
-        dicurls = map(lambda a:locate_dic(a[0],a[1],regloc=options.registry,store_dir=options.dirname),dics)
+        dicurls = list(map(lambda a:locate_dic(a[0],a[1],regloc=options.registry,store_dir=options.dirname),dics))
         diccifs = map(lambda a:cif_by_ftp(a,options.store_flag,options.dirname),dicurls)
         fulldic = CifFile.CifFile_module.merge_dic(diccifs)
         diclist = dicurls  # for use in reporting later
-- 
2.43.0


From e9aa10fa639b3b92f1f65708c7bb1004168075cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 143/154] fix: the loop example runs in Python 3

---
 src/Programs/loop_example.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Programs/loop_example.py b/src/Programs/loop_example.py
index 9c1780a..4b32c87 100644
--- a/src/Programs/loop_example.py
+++ b/src/Programs/loop_example.py
@@ -17,16 +17,17 @@ needed_items = [
           "_atom_site_fract_z"]
 
 loopkeys = cf.GetLoopNames("_atom_site_label")  #get co-looped names
-if len(filter(lambda a,b=loopkeys:a not in b, needed_items)) != 0:
+if len([a for a in needed_items if a not in loopkeys]) != 0:
     print("Error: one or more items missing from atom_site_label loop")
     sys.exit()
 #
 # ----- End of optional section
 
 nb = CifBlock()                   # create a new block
-map(lambda a:nb.AddItem(a,cf[a]),needed_items)  #set new values
+for a in needed_items: nb.AddItem(a,cf[a])  #set new values
 nb.CreateLoop(needed_items)               # create the loop
 df = CifFile()                    # create a new cif object
 df.NewBlock("changed",nb)             # and add our new block
 outfile = open("updated.cif",'w')      #open a file to write to
 outfile.write (df.WriteOut(comment="# This file has been updated"))
+outfile.close()
-- 
2.43.0


From 3ee5fca6f484043ebe2de8f455278e98bf92f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 144/154] fix: star2_to_cif2 runs in Python 3 with any file

---
 src/Programs/star2_to_cif2.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Programs/star2_to_cif2.py b/src/Programs/star2_to_cif2.py
index 15848c0..5527907 100644
--- a/src/Programs/star2_to_cif2.py
+++ b/src/Programs/star2_to_cif2.py
@@ -11,19 +11,20 @@ another the descriptive text for the dictionary.
 
 from __future__ import print_function
 from CifFile import ReadCif,CifDic
-import time
+import os, time
 
 def do_conversion(infile,outfile,desc=None,comment=None):
-    startread = time.clock()
+    startread = time.time()
     incif = ReadCif(infile,grammar="STAR2")
-    print('Finished reading %s in %f seconds' % (infile,time.clock() - startread))
+    print('Finished reading %s in %f seconds' % (infile,time.time() - startread))
     try:
         incif = CifDic(incif,do_minimum=True)
     except:
         print('Failed to read as CIF dictionary')
     incif.set_grammar("2.0")
     incif.standard = 'Dic'
-    incif.SetTemplate("dic_template.dic")
+    if os.path.exists("dic_template.dic"):
+        incif.SetTemplate("dic_template.dic")
     if comment is None:
         comment_header = \
 """###############################################################################
@@ -42,11 +43,10 @@ def do_conversion(infile,outfile,desc=None,comment=None):
         incif.master_block['_description.text'] = open(desc).read()
         incif.master_block.overwrite=False
     # print('Master template: {!r}'.format(incif.dic_as_cif.master_template))
-    print('check: {!r}'.format(incif.recurse_child_list('enumeration')))
     of = open(outfile,"w")
     of.write(incif.WriteOut(comment=comment_header,saves_after='_description.text'))
     of.close()
-    print('Finished writing %s in %f seconds' % (outfile,time.clock() - startread))
+    print('Finished writing %s in %f seconds' % (outfile,time.time() - startread))
 
 if __name__ == "__main__":
     import sys
-- 
2.43.0


From 112dffe26e261743e25103c3b14a1b05e0dc8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 145/154] fix: DDL2 dictionaries whose definitions list child
 items or links can be used

---
 src/CifFile_module.nw | 188 ++++++++++++++----------------------------
 1 file changed, 60 insertions(+), 128 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 1d53317..02c6548 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -838,162 +838,92 @@ simplicity.
 
 <<Iron out DDL2 strangeness>>=
 <<Loopify parent-child relationships>>
+<<Add a definition block>>
 
 def DDL2_normalise(self):
-   listed_defs = filter(lambda a:isinstance(self[a].get('_item.name'),list),self.keys())
-   # now filter out all the single element lists!
-   dodgy_defs = filter(lambda a:len(self[a]['_item.name']) > 1, listed_defs)
-   for item_def in dodgy_defs:
+   listed_defs = [a for a in self.keys() if isinstance(self[a].get('_item.name'),list)]
+   for item_def in listed_defs:
       <<Repopulate child definitions>>
    <<Populate parent and child links correctly>>
-   # now flatten any single element lists
-   single_defs = filter(lambda a:len(self[a]['_item.name'])==1,listed_defs)
-   for flat_def in single_defs:
-       flat_keys = self[flat_def].GetLoop('_item.name').keys()
-       for flat_key in flat_keys: self[flat_def][flat_key] = self[flat_def][flat_key][0]
-   # now deal with the multiple lists
    # next we do aliases
    all_aliases = [a for a in self.keys() if self[a].has_key('_item_aliases.alias_name')]
    for aliased in all_aliases:
       my_aliases = listify(self[aliased]['_item_aliases.alias_name'])
       for alias in my_aliases:
-          self[alias] = self[aliased].copy()   #we are going to delete stuff...
-          del self[alias]["_item_aliases.alias_name"]
+          alias_def = self[aliased].copy()   #we are going to delete stuff...
+          del alias_def["_item_aliases.alias_name"]
+          self.add_ddl2_definition(alias,alias_def)
+
+@ Definitions that are added are save frames like all others, and are found by the
+name that they define.
+
+<<Add a definition block>>=
+def add_ddl2_definition(self,name,contents):
+    newname = super(CifDic,self).NewBlock(name,contents,parent=self.get_roots()[0][0])
+    self.block_id_table[name.lower()] = newname.lower()
 
 @ As some DDL2 dictionaries neglect children, we repopulate the skeleton or non-existent definitions that
-may be provided in the dictionary.
+may be provided in the dictionary. Information that the child definition contains is not replaced.
 
 <<Repopulate child definitions>>=
-      # print("DDL2 norm: processing %s" % item_def)
-      thisdef = self[item_def]
-      packet_no = thisdef['_item.name'].index(item_def)
-      realcat = thisdef['_item.category_id'][packet_no]
-      realmand = thisdef['_item.mandatory_code'][packet_no]
-      # first add in all the missing categories
-      # we don't replace the entry in the list corresponding to the
-      # current item, as that would wipe out the information we want
-      for child_no in range(len(thisdef['_item.name'])):
-          if child_no == packet_no: continue
-          child_name = thisdef['_item.name'][child_no]
-          child_cat = thisdef['_item.category_id'][child_no]
-          child_mand = thisdef['_item.mandatory_code'][child_no]
-          if child_name not in self:
-              self[child_name] = CifBlock()
-              self[child_name]['_item.name'] = child_name
-          self[child_name]['_item.category_id'] = child_cat
-          self[child_name]['_item.mandatory_code'] = child_mand
-      self[item_def]['_item.name'] = item_def
-      self[item_def]['_item.category_id'] = realcat
-      self[item_def]['_item.mandatory_code'] = realmand
+thisdef = self[item_def]
+# the names and everything looped with them
+columns = [(a,thisdef[a]) for a in thisdef.GetLoop('_item.name').keys()]
+all_names = [a.lower() for a in thisdef['_item.name']]
+packet_no = 0
+if len(all_names) > 1: packet_no = all_names.index(item_def)
+for colname,values in columns: del thisdef[colname]
+for colname,values in columns: thisdef[colname] = values[packet_no]
+# now add in all the missing categories
+for child_no in range(len(all_names)):
+    if child_no == packet_no: continue
+    if all_names[child_no] not in self.block_id_table:
+        self.add_ddl2_definition(all_names[child_no],DicBlock())
+    childdef = self[all_names[child_no]]
+    for colname,values in columns:
+        if colname not in childdef: childdef[colname] = values[child_no]
 
 @ Populating parent and child links.  The DDL2 model uses parent-child relationships
 to create relational database behaviour.  This means that the emphasis is on simply
 linking two ids together directionally.  This link is not necessarily inside a definition that
 is being linked, but we require that any parents and children are identified within the
 definition that they relate to.  This means we have to sometimes relocate and expand links.
-As an item can simultaneously be both a parent and a child, we need to explicitly fill in
-the links even within a single definition.
+As an item can simultaneously be both a parent and a child, every definition ends up with a loop
+of all the links that it takes part in.
 
 <<Populate parent and child links correctly>>=
-target_defs = [a for a in self.keys() if '_item_linked.child_name' in self[a] or \
-                              '_item_linked.parent_name' in self[a]]
-# now dodgy_defs contains all definition blocks with more than one child/parent link
-for item_def in dodgy_defs: self.create_pcloop(item_def)           #regularise appearance
-for item_def in dodgy_defs:
-      print('Processing %s' % item_def)
-      thisdef = self[item_def]
-      child_list = thisdef['_item_linked.child_name']
-      parents = thisdef['_item_linked.parent_name']
-      # for each parent, find the list of children.
-      family = list(zip(parents,child_list))
-      notmychildren = family         #We aim to remove non-children
-      # Loop over the parents, relocating as necessary
-      while len(notmychildren):
-         # get all children of first entry
-         mychildren = [a for a in family if a[0]==notmychildren[0][0]]
-         print("Parent %s: %d children" % (notmychildren[0][0],len(mychildren)))
-         for parent,child in mychildren:   #parent is the same for all
-                  # Make sure that we simply add in the new entry for the child, not replace it,
-                  # otherwise we might spoil the child entry loop structure
-                  try:
-                      childloop = self[child].GetLoop('_item_linked.parent_name')
-                  except KeyError:
-                      print('Creating new parent entry %s for definition %s' % (parent,child))
-                      self[child]['_item_linked.parent_name'] = [parent]
-                      childloop = self[child].GetLoop('_item_linked.parent_name')
-                      childloop.AddLoopItem(('_item_linked.child_name',[child]))
-                      continue
-                  else:
-                      # A parent loop already exists and so will a child loop due to the
-                      # call to create_pcloop above
-                      pars = [a for a in childloop if getattr(a,'_item_linked.child_name','')==child]
-                      goodpars = [a for a in pars if getattr(a,'_item_linked.parent_name','')==parent]
-                      if len(goodpars)>0:   #no need to add it
-                          print('Skipping duplicated parent - child entry in %s: %s - %s' % (child,parent,child))
-                          continue
-                      print('Adding %s to %s entry' % (parent,child))
-                      newpacket = childloop.GetPacket(0)   #essentially a copy, I hope
-                      setattr(newpacket,'_item_linked.child_name',child)
-                      setattr(newpacket,'_item_linked.parent_name',parent)
-                      childloop.AddPacket(newpacket)
-         #
-         # Make sure the parent also points to the children.  We get
-         # the current entry, then add our
-         # new values if they are not there already
-         #
-         parent_name = mychildren[0][0]
-         old_children = self[parent_name].get('_item_linked.child_name',[])
-         old_parents = self[parent_name].get('_item_linked.parent_name',[])
-         oldfamily = zip(old_parents,old_children)
-         newfamily = []
-         print('Old parents -> %s' % repr(old_parents))
-         for jj, childname in mychildren:
-             alreadythere = [a for a in oldfamily if a[0]==parent_name and a[1] ==childname]
-             if len(alreadythere)>0: continue
-             'Adding new child %s to parent definition at %s' % (childname,parent_name)
-             old_children.append(childname)
-             old_parents.append(parent_name)
-         # Now output the loop, blowing away previous definitions.  If there is something
-         # else in this category, we are destroying it.
-         newloop = CifLoopBlock(dimension=1)
-         newloop.AddLoopItem(('_item_linked.parent_name',old_parents))
-         newloop.AddLoopItem(('_item_linked.child_name',old_children))
-         del self[parent_name]['_item_linked.parent_name']
-         del self[parent_name]['_item_linked.child_name']
-         self[parent_name].insert_loop(newloop)
-         print('New parents -> %s' % repr(self[parent_name]['_item_linked.parent_name']))
-         # now make a new,smaller list
-         notmychildren = [a for a in notmychildren if a[0]!=mychildren[0][0]]
+all_links = []
+for item_def in self.keys():
+   all_links.extend([a for a in self.get_links(item_def) if a not in all_links])
+linked_defs = set([a.lower() for link in all_links for a in link])
+for linked_name in linked_defs:
+   if linked_name not in self.block_id_table: continue   #defined elsewhere
+   self.create_pcloop(linked_name,[a for a in all_links if linked_name in (a[0].lower(),a[1].lower())])
 
 @ In order to handle parent-child relationships in a regular way, we want to assume
-that all parent-child entries occur in a loop, with both members present.  This
-routine does that for us.  If the parent is missing, it is assumed to be the
+that all parent-child entries occur in a loop, with both members present.  These
+routines do that for us.  If the parent is missing, it is assumed to be the
 currently-defined item.  If the child is missing, likewise.
 
 <<Loopify parent-child relationships>>=
-def create_pcloop(self,definition):
-    old_children = self[definition].get('_item_linked.child_name',[])
-    old_parents = self[definition].get('_item_linked.parent_name',[])
-    if isinstance(old_children,unicode):
-         old_children = [old_children]
-    if isinstance(old_parents,unicode):
-         old_parents = [old_parents]
-    if (len(old_children)==0 and len(old_parents)==0) or \
-       (len(old_children) > 1 and len(old_parents)>1):
-         return
+def get_links(self,definition):
+    """Return a list of the (parent,child) pairs given in ``definition``"""
+    this_name = self[definition].get('_item.name',definition)
+    old_children = listify(self[definition].get('_item_linked.child_name',[]))
+    old_parents = listify(self[definition].get('_item_linked.parent_name',[]))
     if len(old_children)==0:
-         old_children = [definition]*len(old_parents)
+         old_children = [this_name]*len(old_parents)
     if len(old_parents)==0:
-         old_parents = [definition]*len(old_children)
-    newloop = CifLoopBlock(dimension=1)
-    newloop.AddLoopItem(('_item_linked.parent_name',old_parents))
-    newloop.AddLoopItem(('_item_linked.child_name',old_children))
-    try:
-        del self[definition]['_item_linked.parent_name']
-        del self[definition]['_item_linked.child_name']
-    except KeyError:
-        pass
-    self[definition].insert_loop(newloop)
+         old_parents = [this_name]*len(old_children)
+    return list(zip(old_parents,old_children))
+
+def create_pcloop(self,definition,links):
+    """Make ``links``, a list of (parent,child) pairs, the links listed in ``definition``"""
+    for linkname in ('_item_linked.parent_name','_item_linked.child_name'):
+        if linkname in self[definition]: del self[definition][linkname]
+    self[definition]['_item_linked.parent_name'] = [a[0] for a in links]
+    self[definition]['_item_linked.child_name'] = [a[1] for a in links]
+    self[definition].CreateLoop(['_item_linked.parent_name','_item_linked.child_name'])
 
 
 @ Loading the DDL1 categories with DDL2-type information.  DDL2 people wisely
@@ -1175,6 +1105,8 @@ def create_def_block_table(self):
     proto_table = [(super(CifDic,self).__getitem__(a),a) for a in super(CifDic,self).keys()]
     # now get the actual ids instead of blocks
     proto_table = list([(a[0].get(self.cat_id_spec,a[0].get(self.def_id_spec,a[1])),a[1]) for a in proto_table])
+    # DDL2 definitions that list their children: only the block name tells which item is defined
+    proto_table = list([(a[1] if isinstance(a[0],list) else a[0],a[1]) for a in proto_table])
     # remove non-definitions
     if self.diclang != "DDL1":
         top_blocks = list([a[0].lower() for a in self.get_roots()])
-- 
2.43.0


From d4f38452832098b6326e6d4fecc6c569981dca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 146/154] fix: links between other items in a DDL2 definition
 are not links of the defined item

---
 src/CifFile_module.nw | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 02c6548..0cbde00 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -866,22 +866,22 @@ def add_ddl2_definition(self,name,contents):
 may be provided in the dictionary. Information that the child definition contains is not replaced.
 
 <<Repopulate child definitions>>=
-thisdef = self[item_def]
-# the names and everything looped with them
-columns = [(a,thisdef[a]) for a in thisdef.GetLoop('_item.name').keys()]
-all_names = [a.lower() for a in thisdef['_item.name']]
-packet_no = 0
-if len(all_names) > 1: packet_no = all_names.index(item_def)
-for colname,values in columns: del thisdef[colname]
-for colname,values in columns: thisdef[colname] = values[packet_no]
-# now add in all the missing categories
-for child_no in range(len(all_names)):
-    if child_no == packet_no: continue
-    if all_names[child_no] not in self.block_id_table:
-        self.add_ddl2_definition(all_names[child_no],DicBlock())
-    childdef = self[all_names[child_no]]
-    for colname,values in columns:
-        if colname not in childdef: childdef[colname] = values[child_no]
+      thisdef = self[item_def]
+      # the names and everything looped with them
+      columns = [(a,thisdef[a]) for a in thisdef.GetLoop('_item.name').keys()]
+      all_names = [a.lower() for a in thisdef['_item.name']]
+      packet_no = 0
+      if len(all_names) > 1: packet_no = all_names.index(item_def)
+      for colname,values in columns: del thisdef[colname]
+      for colname,values in columns: thisdef[colname] = values[packet_no]
+      # now add in all the missing categories
+      for child_no in range(len(all_names)):
+          if child_no == packet_no: continue
+          if all_names[child_no] not in self.block_id_table:
+              self.add_ddl2_definition(all_names[child_no],DicBlock())
+          childdef = self[all_names[child_no]]
+          for colname,values in columns:
+              if colname not in childdef: childdef[colname] = values[child_no]
 
 @ Populating parent and child links.  The DDL2 model uses parent-child relationships
 to create relational database behaviour.  This means that the emphasis is on simply
-- 
2.43.0


From 953f961b1c75dabb6ea09b907cf73376ff188ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 147/154] fix: uncertainties are checked for every type of
 number

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 0cbde00..01fc796 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2059,7 +2059,7 @@ esd if _type.purpose is Number.
 
 <<Validate esd presence>>=
 def validate_item_esd(self,item_name,item_value):
-    if self[item_name].get(self.primitive_type) != 'numb':
+    if self.primdic.get(self[item_name].get(self.type_spec)) != 'numb':
         return {"result":None}
     can_esd = self[item_name].get(self.esd_spec,"none") == "esd"
     if can_esd: return {"result":True}         #must be OK!
-- 
2.43.0


From 075de76ff729f0dd6aa4047336882f0663fcea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 148/154] fix: a range need not be looped

---
 src/CifFile_module.nw | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 01fc796..7cbb2ad 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2093,8 +2093,8 @@ def validate_enum_range(self,item_name,item_value):
     if "_item_range.minimum" not in self[item_name] and \
        "_item_range.maximum" not in self[item_name]:
         return {"result":None}
-    minvals = self[item_name].get("_item_range.minimum",default = ["."])
-    maxvals = self[item_name].get("_item_range.maximum",default = ["."])
+    minvals = listify(self[item_name].get("_item_range.minimum",default = ["."]))
+    maxvals = listify(self[item_name].get("_item_range.maximum",default = ["."]))
     def makefloat(a):
         if a == ".": return a
         else: return float(a)
-- 
2.43.0


From 41c2f4a4a3ccfd026eb862ae99f4a20ee565bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 149/154] fix: items that an item depends on are found in any
 case

---
 src/CifFile_module.nw | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 7cbb2ad..41150c3 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -2531,7 +2531,8 @@ def validate_dependents(self,item_name,item_value,whole_block,prov={},globals={}
     actual_names = whole_block.keys()
     actual_names.extend(prov.keys())
     actual_names.extend(globals.keys())
-    missing = [a for a in dep_items if a not in actual_names]
+    actual_names = [a.lower() for a in actual_names]
+    missing = [a for a in dep_items if a.lower() not in actual_names]
     if len(missing) > 0:
         alternates = map(lambda a:[self.get_alternates(a),a],missing)
         # compact way to get a list of alternative items which are
-- 
2.43.0


From a0d68c01694cf98d23f204a87a7702bffbef5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 150/154] fix: text that goes on after a number is not a number

---
 src/CifFile_module.nw | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index 41150c3..b71417b 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -4160,7 +4160,7 @@ if necessary, apply the exponent.
 
 <<Extract number and esd>>=
 def get_number_with_esd(numstring):
-    numb_re = '([-+]?(([0-9]*[.]([0-9]+))|([0-9]+)[.]?))([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?([(][0-9]+[)])?$'
+    numb_re = '([-+]?(([0-9]*[.]([0-9]+))|([0-9]+)[.]?))([(][0-9]+[)])?([eEdD][+-]?[0-9]+)?([(][0-9]+[)])?\\Z'
     our_match = re.match(numb_re,numstring)
     # the uncertainty follows the exponent, but is also found before it
     if our_match and not (our_match.group(6) and our_match.group(8)):
-- 
2.43.0


From 47082726bf7a0594ea1d1b44e2909ec2ce6f9e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 151/154] fix: an item whose definition lists its links is not
 its own parent or child

---
 src/CifFile_module.nw | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/CifFile_module.nw b/src/CifFile_module.nw
index b71417b..22f1570 100644
--- a/src/CifFile_module.nw
+++ b/src/CifFile_module.nw
@@ -853,6 +853,10 @@ def DDL2_normalise(self):
           alias_def = self[aliased].copy()   #we are going to delete stuff...
           del alias_def["_item_aliases.alias_name"]
           self.add_ddl2_definition(alias,alias_def)
+          # the alias takes part in the same links
+          my_links = self.get_links(aliased)
+          if my_links:
+              self.create_pcloop(alias,[tuple([(b,alias)[b.lower()==aliased.lower()] for b in a]) for a in my_links])
 
 @ Definitions that are added are save frames like all others, and are found by the
 name that they define.
@@ -898,7 +902,10 @@ for item_def in self.keys():
 linked_defs = set([a.lower() for link in all_links for a in link])
 for linked_name in linked_defs:
    if linked_name not in self.block_id_table: continue   #defined elsewhere
-   self.create_pcloop(linked_name,[a for a in all_links if linked_name in (a[0].lower(),a[1].lower())])
+   # the links to its own parents come first
+   to_parents = [a for a in all_links if a[1].lower() == linked_name]
+   to_children = [a for a in all_links if a[0].lower() == linked_name and a not in to_parents]
+   self.create_pcloop(linked_name,to_parents + to_children)
 
 @ In order to handle parent-child relationships in a regular way, we want to assume
 that all parent-child entries occur in a loop, with both members present.  These
@@ -2465,6 +2472,8 @@ def validate_child(self,item_name,item_value,whole_block,provisional_items={},gl
         return {"result":None}
     if isinstance(child_items,unicode): # only one child
         child_items = [child_items]
+    # an item that lists the links to its parents is not its own child
+    child_items = [a for a in child_items if a.lower() != item_name.lower()]
     if isinstance(item_value,unicode): # single value
         parent_values = [item_value]
     else: parent_values = item_value[:]
@@ -2509,6 +2518,8 @@ def validate_remove_parent_child(self,item_name,whole_block):
         return {"result":None}
     if isinstance(child_items,unicode): # only one child
         child_items = [child_items]
+    # an item that lists the links to its parents is not its own child
+    child_items = [a for a in child_items if a.lower() != item_name.lower()]
     for child_item in child_items:
         if child_item in whole_block:
             return {"result":False,"child":child_item}
-- 
2.43.0


From 2e0e4d203db2c43a27a5b09e0488aca28b5beaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 152/154] fix: the last value named for a syntax error is a
 value of this file

---
 src/StarFile.nw        | 1 +
 src/YappsStarParser.nw | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StarFile.nw b/src/StarFile.nw
index a54fa8a..79b5d99 100644
--- a/src/StarFile.nw
+++ b/src/StarFile.nw
@@ -1172,6 +1172,7 @@ def ReadStar(filename,prepared = None, maxlength=-1,
        else:
            prepared.set_characterset('ascii')
        proto_star = None
+       Y.lastval = ''      #may be left from another file
        try:
            proto_star = getattr(parser,"input")(prepared)
        except Y.yappsrt.YappsSyntaxError as e:
diff --git a/src/YappsStarParser.nw b/src/YappsStarParser.nw
index 4943910..bbd0357 100644
--- a/src/YappsStarParser.nw
+++ b/src/YappsStarParser.nw
@@ -72,7 +72,7 @@ lastval = ''
 def monitor(location,value):
     global lastval
     #print 'At %s: %s' % (location,repr(value))
-    lastval = repr(value)
+    if location == 'data_value': lastval = repr(value)
     return value
 
 # Strip extras gets rid of leading and trailing whitespace, and
-- 
2.43.0


From c93970ba20da25b0765655c1529db24003e3418f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 153/154] fix: generated parsers choose an empty alternative
 only when no other begins alike

A clause that can be empty was tested in the order of writing, and tokens were
removed from the list that was being gone through: the parser refused valid
text, or was not valid Python.
---
 src/yapps3/parsetree.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapps3/parsetree.py b/src/yapps3/parsetree.py
index c8c1af5..3166942 100644
--- a/src/yapps3/parsetree.py
+++ b/src/yapps3/parsetree.py
@@ -508,10 +508,14 @@ class Choice(Node):
             # Context insensitive scanners can return ANY token,
             # not only the ones in first.
             tokens_unseen = gen.non_ignored_tokens()
-        for c in self.children:
+        # Anything can follow an empty clause, so it is only for those
+        # tokens that begin no other clause.
+        clauses = [c for c in self.children if not c.accepts_epsilon]
+        clauses += [c for c in self.children if c.accepts_epsilon]
+        for c in clauses:
             testset = c.first[:]
             removed = []
-            for x in testset:
+            for x in c.first:
                 if x in tokens_seen:
                     testset.remove(x)
                     removed.append(x)
-- 
2.43.0


From 5596adebce741a7152451c7696ef64328c45b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:15 +0000
Subject: [PATCH 154/154] fix: the place of a token that no clause can begin
 with is a number

The first letter of the token's name was given as its position, and reporting
the error failed.
---
 src/yapps3/parsetree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapps3/parsetree.py b/src/yapps3/parsetree.py
index 3166942..a627b1d 100644
--- a/src/yapps3/parsetree.py
+++ b/src/yapps3/parsetree.py
@@ -552,8 +552,8 @@ class Choice(Node):
 
         if tokens_unseen:
             gen.write(indent, "else:\n")
-            gen.write(indent, INDENT, "raise yappsrt.YappsSyntaxError(_token[0], ")
-            gen.write("'Could not match ", self.rule, "')\n")
+            gen.write(indent, INDENT, "raise yappsrt.YappsSyntaxError(charpos=self._scanner.get_prev_char_pos(), context=_context, ")
+            gen.write("msg='Could not match ", self.rule, "')\n")
 
 class Wrapper(Node):
     """This is a base class for nodes that modify a single child."""
-- 
2.43.0

