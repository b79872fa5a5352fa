CONSTANT MaxN = 5
SPECIFICATION GSpec
