CONSTANTS Values = {0, 1, 2}
 MaxLen = 5
 Denom = 4
SPECIFICATION GSpec
