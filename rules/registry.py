RULES = {
    "P01": ("rt", "p01"),
    "P02": ("rt", "p02"),
    "P03": ("execu", "p03"),
    "P04": ("nodes", "p04"),
    "P05": ("nodes", "p05"),
    "P06": ("srate", "p06"),
    "P07": ("engine", "p07"),
    "P08": ("engine", "p08"),
    "P09": ("midi", "p09"),
    "P10": ("matrix", "p10"),
    "P11": ("matrix", "p11"),
    "P12": ("load", "p12"),
    "P13": ("fmt", "p13"),
    "P14": ("untrust", "p14"),
    "P15": ("files", "p15"),
    "P17": ("fb", "p17"),
    "P18": ("untrust", "p18"),
    "P19": ("track", "p19"),
    "P20": ("blocks", "p20"),
    "P22": ("geom", "p22"),
    "P23": ("tables", "p23"),
    "P24": ("load", "p24"),
    "P25": ("chain", "p25"),
    "P26": ("globals", "p26"),
    "P27": ("fb", "p27"),
    "P28": ("fb", "p28"),
    "P29": ("synth", "p29"),
}
