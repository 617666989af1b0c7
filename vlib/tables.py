"""Properties of the elements as published by PubChem (periodic table, August 2025)."""

# symbol: (mass, CPK color)
ATOMS = {
    "H": (1.008, "#FFFFFF"), "He": (4.0026, "#D9FFFF"), "Li": (7.0, "#CC80FF"),
    "Be": (9.012183, "#C2FF00"), "B": (10.81, "#FFB5B5"), "C": (12.011, "#909090"),
    "N": (14.007, "#3050F8"), "O": (15.999, "#FF0D0D"), "F": (18.99840316, "#90E050"),
    "Ne": (20.18, "#B3E3F5"), "Na": (22.9897693, "#AB5CF2"), "Mg": (24.305, "#8AFF00"),
    "Al": (26.981538, "#BFA6A6"), "Si": (28.085, "#F0C8A0"), "P": (30.973762, "#FF8000"),
    "S": (32.07, "#FFFF30"), "Cl": (35.45, "#1FF01F"), "Ar": (39.9, "#80D1E3"),
    "K": (39.0983, "#8F40D4"), "Ca": (40.08, "#3DFF00"), "Sc": (44.95591, "#E6E6E6"),
    "Ti": (47.867, "#BFC2C7"), "V": (50.9415, "#A6A6AB"), "Cr": (51.996, "#8A99C7"),
    "Mn": (54.93804, "#9C7AC7"), "Fe": (55.84, "#E06633"), "Co": (58.93319, "#F090A0"),
    "Ni": (58.693, "#50D050"), "Cu": (63.55, "#C88033"), "Zn": (65.4, "#7D80B0"),
    "Ga": (69.723, "#C28F8F"), "Ge": (72.63, "#668F8F"), "As": (74.92159, "#BD80E3"),
    "Se": (78.97, "#FFA100"), "Br": (79.9, "#A62929"), "Kr": (83.8, "#5CB8D1"),
    "Rb": (85.468, "#702EB0"), "Sr": (87.62, "#00FF00"), "Y": (88.90584, "#94FFFF"),
    "Zr": (91.22, "#94E0E0"), "Nb": (92.90637, "#73C2C9"), "Mo": (95.95, "#54B5B5"),
    "Tc": (96.90636, "#3B9E9E"), "Ru": (101.1, "#248F8F"), "Rh": (102.9055, "#0A7D8C"),
    "Pd": (106.42, "#006985"), "Ag": (107.868, "#C0C0C0"), "Cd": (112.41, "#FFD98F"),
    "In": (114.818, "#A67573"), "Sn": (118.71, "#668080"), "Sb": (121.76, "#9E63B5"),
    "Te": (127.6, "#D47A00"), "I": (126.9045, "#940094"), "Xe": (131.29, "#429EB0"),
    "Cs": (132.905452, "#57178F"), "Ba": (137.33, "#00C900"), "La": (138.9055, "#70D4FF"),
    "Ce": (140.116, "#FFFFC7"), "Pr": (140.90766, "#D9FFC7"), "Nd": (144.24, "#C7FFC7"),
    "Pm": (144.91276, "#A3FFC7"), "Sm": (150.4, "#8FFFC7"), "Eu": (151.964, "#61FFC7"),
    "Gd": (157.25, "#45FFC7"), "Tb": (158.92535, "#30FFC7"), "Dy": (162.5, "#1FFFC7"),
    "Ho": (164.93033, "#00FF9C"), "Er": (167.26, "#00E675"), "Tm": (168.93422, "#00D452"),
    "Yb": (173.05, "#00BF38"), "Lu": (174.9667, "#00AB24"), "Hf": (178.49, "#4DC2FF"),
    "Ta": (180.9479, "#4DA6FF"), "W": (183.84, "#2194D6"), "Re": (186.207, "#267DAB"),
    "Os": (190.2, "#266696"), "Ir": (192.22, "#175487"), "Pt": (195.08, "#D0D0E0"),
    "Au": (196.96657, "#FFD123"), "Hg": (200.59, "#B8B8D0"), "Tl": (204.383, "#A6544D"),
    "Pb": (207, "#575961"), "Bi": (208.9804, "#9E4FB5"), "Po": (208.98243, "#AB5C00"),
    "At": (209.98715, "#754F45"), "Rn": (222.01758, "#428296"), "Fr": (223.01973, "#420066"),
    "Ra": (226.02541, "#007D00"), "Ac": (227.02775, "#70ABFA"), "Th": (232.038, "#00BAFF"),
    "Pa": (231.03588, "#00A1FF"), "U": (238.0289, "#008FFF"), "Np": (237.048172, "#0080FF"),
    "Pu": (244.0642, "#006BFF"), "Am": (243.06138, "#545CF2"), "Cm": (247.07035, "#785CE3"),
    "Bk": (247.07031, "#8A4FE3"), "Cf": (251.07959, "#A136D4"), "Es": (252.083, "#B31FD4"),
    "Fm": (257.09511, "#B31FBA"), "Md": (258.09843, "#B30DA6"), "No": (259.101, "#BD0D87"),
    "Lr": (266.12, "#C70066"), "Rf": (267.122, "#CC0059"), "Db": (268.126, "#D1004F"),
    "Sg": (269.128, "#D90045"), "Bh": (270.133, "#E00038"), "Hs": (269.1336, "#E6002E"),
    "Mt": (277.154, "#EB0026"), "Ds": (282.166, "#FD00D7"), "Rg": (282.169, "#FD00D7"),
    "Cn": (286.179, "#FD00D7"), "Nh": (286.182, "#FD00D7"), "Fl": (290.192, "#FD00D7"),
    "Mc": (290.196, "#FD00D7"), "Lv": (293.205, "#FD00D7"), "Ts": (294.211, "#FD00D7"),
    "Og": (295.216, "#FD00D7"),
}  # fmt: skip
UNKNOWN = "#FD00D7"  # color of the atoms of unknown species
