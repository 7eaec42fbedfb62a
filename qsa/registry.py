MODULES = {
    "P01": "options",
    "P02": "endian",
    "P05": "algebra",
    "P07": "passes",
    "P08": "lowering",
    "P10": "matrices",
    "P12": "embed",
    "P03": "serial",
    "P04": "evalgate",
    "P11": "shift",
    "P14": "structure",
    "P13": "noise",
    "P20": "measure",
    "P24": "register",
    "P25": "analog",
    "P26": "pulser",
    "P18": "hamilt",
    "P19": "construct",
}
