CHECKS = {
    "C01": ("effects", "c01"),
    "C02": ("effects", "c02"),
    "C03": ("effects", "c03"),
    "C04": ("selfcontained", "c04"),
    "C05": ("ownership", "c05"),
    "C06": ("ownership", "c06"),
    "C07": ("buffers", "c07"),
    "C08": ("buffers", "c08"),
    "C09": ("buffers", "c09"),
    "C14": ("lists", "c14"),
    "C32": ("chunks", "c32"),
    "C33": ("macros", "c33"),
    "C36": ("macros", "c36"),
    "C28": ("codecs", "c28"),
    "C29": ("codecs", "c29"),
    "C26": ("codecs", "c26"),
    "C27": ("codecs", "c27"),
    "C30": ("hashes", "c30"),
    "C31": ("hashes", "c31"),
    "C15": ("htable", "c15"),
    "C16": ("htable", "c16"),
    "C20": ("values", "c20"),
    "C21": ("values", "c21"),
    "C22": ("values", "c22"),
    "C23": ("varray", "c23"),
    "C17": ("vdict", "c17"),
    "C18": ("vdict", "c18"),
    "C19": ("vdict", "c19"),
    "C24": ("vpath", "c24"),
    "C25": ("marks", "c25"),
    "C34": ("vcmd", "c34"),
    "C35": ("vcmd", "c35"),
    "C37": ("vmem", "c37"),
    "C38": ("vmem", "c38"),
    "C41": ("depth", "c41"),
    "C42": ("arith", "c42"),
    "C43": ("endings", "c43"),
    "C10": ("rbtree", "c10"),
    "C11": ("rbtree", "c11"),
    "C12": ("rbtree", "c12"),
    "C13": ("rbtree", "c13"),
}
