SPECIFICATION Spec
CONSTANTS
 Maturity = 25
 MaxPays = 2
 MaxTop = 3
 MaxReorgs = 1
 Restore = FALSE
VIEW View
INVARIANTS AllSound Balanced Mines
PROPERTIES Truthful Enough Released
CHECK_DEADLOCK FALSE
