HARNESS = {
    "P01": {"file": "p01.cpp", "asan_share": 0.35},
    "P02": {"file": "p02.cpp"},
    "P03": {"file": "p03.cpp"},
    "P04": {"file": "p04.cpp", "jobs": 2},
    "P05": {"file": "p05.cpp"},
    "P06": {"file": "p06.cpp"},
    "P07": {"file": "p07.cpp"},
    "P08": {"file": "p08.cpp", "asan_share": 0.1},
    "P09": {"file": "p09.cpp"},
    "P10": {"file": "p10.cpp"},
    "P11": {"file": "p11.cpp"},
    "P12": {"file": "p12.cpp"},
    "P13": {"file": "p13.cpp"},
    "P14": {"file": "p14.cpp"},
    "P15": {"file": "p15.cpp"},
    "P16": {"file": "p16.cpp"},
    "P17": {"file": "p17.cpp"},
    "P18": {"file": "p18.cpp"},
    "P19": {"file": "p19.cpp"},
    "P20": {"file": "p20.cpp"},
    "P21": {"file": "p21.cpp"},
    "P22": {"file": "p22.cpp", "case_cpu": 40},
    "P23": {"file": "p23.cpp"},
    "P24": {"file": "p24.cpp"},
    "P25": {"file": "p25.cpp"},
    "P26": {"file": "p26.cpp"},
    "P27": {"file": "p27.cpp"},
}
ASSUMPTIONS = {}
TECHNIQUE = {}
