CHECKS = {
 "S01": ("otshim", "s01"),
 "E05": ("zipk", "e05"), "E06": ("prefs", "e06"), "E07": ("render", "e07"),
 "E04": ("prom", "e04"),
"E03": ("otlp", "e03"), "E01": ("otlp", "e01"), "E02": ("otlp", "e02"),
 "L02": ("loghandler", "l02"), "L03": ("logevents", "l03"),
 "R03": ("conf", "r03"),
 "R02": ("attrs", "r02"),
 "R01": ("res", "r01"),
 "G02": ("globs", "g02"),
 "G01": ("globs", "g01"),
 "P06": ("prop", "p06"),
 "P05": ("prop", "p05"),
 "P04": ("prop", "p04"),
 "P03": ("prop", "p03"),
 "P02": ("prop", "p02"),
 "P01": ("prop", "p01"),
 "C01": ("context", "c01"), "C02": ("context", "c02"),
 "T09": ("fanout", "t09"),
 "T10": ("fanout", "t10"),
 "T11": ("fork", "t11"),
 "M08": ("periodic", "m08"),
 "M06": ("entity", "m06"),
 "M09": ("metric", "m09"),
 "M03": ("metric", "m03"),
 "M01": ("metric", "m01"), "M02": ("metric", "m02"), "M04": ("metric", "m04"), "M05": ("metric", "m05"), "M07": ("metric", "m07"),
 "T07": ("span", "t07"), "T08": ("span", "t08"),
 "T04": ("span", "t04"), "T05": ("span", "t05"), "T06": ("span", "t06"),
 "T01": ("batch", "t01"), "T02": ("batch", "t02"), "T03": ("batch", "t03"), "L01": ("batch", "l01"),
}
TECH = {}
NOTE = {}
