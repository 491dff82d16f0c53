SPECIFICATION Spec
CONSTANT NParts = 4
INVARIANTS TextOnce PagesOK LinksLead NavOK NotesOK Balanced
PROPERTY NumUp
CHECK_DEADLOCK FALSE
