SPECIFICATION Spec
CONSTANT NParts = 3
INVARIANTS TextOnce PagesOK LinksLead NavOK NotesOK Balanced
PROPERTY NumUp
CHECK_DEADLOCK FALSE
