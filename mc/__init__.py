"""Small explicit-state / exhaustive-enumeration model checking harness for PyCIFRW."""
