TECH = {}
LEVEL = {}
NOTE = {
    "P21": "One column at a time is proved; whole classes, the code of modules and the table of types are bounded checks (types are made by the standard library at run time).",
    "P04": "All contracts proved for all column definitions; per dialect. Quoting and literals enter by their contracts (P01, P02).",
}
