"""Which driver, specifications and models decide which property."""

Q, T = ["quick"], ["thorough"]

FAMILIES = {
    "nakedos": {
        "driver": "nakedos", "trace": "NakedOSTrace",
        "models": [
            {"module": "MCNakedOS", "cfg": "MCNakedOSQuick", "tiers": Q, "workers": 2},
            {"module": "MCNakedOS", "cfg": "MCNakedOS", "tiers": T, "workers": 6, "heap": "6g"},
        ],
        "note": "Every transition of a small disk is checked exhaustively on the model; the real code is bound to the specification by every recorded step of the generated and random histories, not for all histories. Trusts TLC and the driver's independent reading of the disk format.",
        "gens": [{"module": "MCNakedOS", "cfg": "GenNakedOS", "mark": "HIST", "key": "hist"}],
    },
    "sectors": {
        "driver": "sectors", "trace": "SectorsTrace", "cli": True,
        "models": [
            {"module": "MCSectorOrders", "cfg": "MCSectorOrdersQuick", "tiers": Q},
            {"module": "MCSectorOrders", "cfg": "MCSectorOrders", "tiers": T, "workers": 6},
        ],
    },
    "dos33": {
        "driver": "dos33", "trace": "Dos33Trace", "cli": True,
        "models": [
            {"module": "MCChains", "cfg": "MCChains"},
            {"module": "MCDos33Model", "cfg": "MCDos33ModelQuick", "tiers": Q},
            {"module": "MCDos33Model", "cfg": "MCDos33Model", "tiers": T, "workers": 4},
        ],
        "gens": [
            {"module": "MCChains", "cfg": "GenChains", "mark": "GRAPH", "key": "graph", "tiers": Q},
            {"module": "MCChains", "cfg": "GenChainsDeep", "mark": "GRAPH", "key": "graph", "tiers": T},
        ],
        "note": "Reading rules are checked exhaustively on a scaled-down disk and on all small pointer graphs; the real code is bound to the byte-level specification on every such graph and on seeded random disks, not on all images.",
    },
    "prodos": {
        "driver": "prodos", "trace": "ProDOSTrace", "cli": True,
        "models": [
            {"module": "MCChains", "cfg": "MCChains"},
            {"module": "ProDOSModel", "cfg": "ProDOSModelQuick", "tiers": Q},
            {"module": "ProDOSModel", "cfg": "ProDOSModel", "tiers": T, "workers": 4},
        ],
        "gens": [
            {"module": "MCChains", "cfg": "GenChains", "mark": "GRAPH", "key": "graph", "tiers": Q},
            {"module": "MCChains", "cfg": "GenChainsDeep", "mark": "GRAPH", "key": "graph", "tiers": T},
        ],
        "note": "Finding directories by structures alone is checked exhaustively against the history that made them, on a scaled-down volume; the real code is bound to the byte-level specification on all small pointer graphs and on seeded random volumes, not on all images.",
    },
    "opening": {
        "driver": "opening", "trace": "OpeningTrace", "cli": True,
        "models": [{"module": "MCOpening", "cfg": "MCOpening"}],
        "gens": [
            {"module": "MCOpening", "cfg": "GenOpening", "mark": "OPEN", "key": "open", "tiers": Q},
            {"module": "MCOpening", "cfg": "GenOpeningDeep", "mark": "OPEN", "key": "open", "tiers": T},
            {"module": "MCChains", "cfg": "GenChains", "mark": "GRAPH", "key": "graph", "tiers": Q},
            {"module": "MCChains", "cfg": "GenChainsDeep", "mark": "GRAPH", "key": "graph", "tiers": T},
        ],
        "note": "The decision is checked for every combination of options, extension and two systems' answers, on the model and on the real code with stand-in systems; recognition by the real systems is checked on generated and random contents, not on all.",
    },
    "damaged": {
        "driver": "damaged", "trace": "DamagedTrace", "cli": True,
        "models": [
            {"module": "MCChains", "cfg": "MCChains", "tiers": Q},
            {"module": "MCChains", "cfg": "MCChainsDeep", "tiers": T, "workers": 4},
            {"module": "MCDamaged", "cfg": "MCDamagedQuick", "tiers": Q},
            {"module": "MCDamaged", "cfg": "MCDamaged", "tiers": T, "workers": 6},
        ],
        "gens": [
            {"module": "MCChains", "cfg": "GenChains", "mark": "GRAPH", "key": "graph", "tiers": Q},
            {"module": "MCChains", "cfg": "GenChainsDeep", "mark": "GRAPH", "key": "graph", "tiers": T},
            {"module": "MCDamaged", "cfg": "GenDamaged", "mark": "VOL", "key": "vol", "tiers": Q},
            {"module": "MCDamaged", "cfg": "GenDamagedDeep", "mark": "VOL", "key": "vol", "tiers": T},
        ],
        "note": "That a correct reader ends is checked on the model for every small graph of pointers; the real code is run on all those graphs and on spoiled, random and extreme images, with time and memory limits, not on all images.",
    },
    "layouts": {
        "driver": "layouts", "trace": "LayoutsTrace", "chunk": 3 << 20,
        "models": [
            {"module": "MCLayouts", "cfg": "MCLayouts", "tiers": Q},
            {"module": "MCLayouts", "cfg": "MCLayoutsDeep", "tiers": T, "workers": 6},
        ],
        "note": "The field tables are checked to cover every byte exactly once; on the real code every value at every offset, every field and every sector or block of a floppy is tried, but not all combinations of bytes.",
    },
    "freemaps": {
        "driver": "freemaps", "trace": "FreeMapsTrace", "chunk": 1 << 20,
        "models": [
            {"module": "MCFreeMaps", "cfg": "MCFreeMaps", "tiers": Q},
            {"module": "MCFreeMaps", "cfg": "MCFreeMapsDeep", "tiers": T, "workers": 6},
        ],
        "gens": [
            {"module": "MCFreeMaps", "cfg": "GenFreeMaps", "mark": "MARKS", "key": "marks", "tiers": Q},
            {"module": "MCFreeMaps", "cfg": "GenFreeMapsDeep", "mark": "MARKS", "key": "marks", "tiers": T},
        ],
        "note": "Small maps are checked in every state; the real maps are checked on all generated short histories over chosen blocks and on random ones, for sizes at and around every boundary, and DOS 3.3 track maps on all bit patterns.",
    },
    "filetypes": {
        "driver": "filetypes", "trace": "FiletypesTrace", "cli": True, "chunk": 1 << 20,
        "models": [{"module": "MCFiletypes", "cfg": "MCFiletypes"}],
        "gens": [{"module": "MCFiletypes", "cfg": "GenFiletypes", "mark": "NAME", "key": "name"}],
        "note": "All types, all listed names and abbreviations and all strings of up to three capital letters are tried on the real code; of other strings, those near to names and random ones.",
    },
    "applesoft": {
        "driver": "applesoft", "trace": "ApplesoftTrace", "cli": True, "chunk": 1 << 20,
        "models": [
            {"module": "MCApplesoft", "cfg": "MCApplesoftQuick", "tiers": Q},
            {"module": "MCApplesoft", "cfg": "MCApplesoft", "tiers": T, "workers": 4},
            {"module": "MCApplesoft", "cfg": "MCApplesoftDeep", "tiers": T, "workers": 4},
        ],
        "gens": [
            {"module": "MCApplesoft", "cfg": "GenApplesoft", "mark": "MEM", "key": "mem", "tiers": Q},
            {"module": "MCApplesoft", "cfg": "GenApplesoftDeep", "mark": "MEM", "key": "mem", "tiers": T},
        ],
        "note": "A reader is checked to end and to agree with the definition on every small memory; the real decoder is run on all small memories over a few byte values, on every byte as text, and on seeded random and spoiled programs, not on all byte strings.",
    },
    "integer": {
        "driver": "integer", "trace": "IntegerTrace", "chunk": 1 << 20,
        "models": [
            {"module": "MCInteger", "cfg": "MCIntegerQuick", "tiers": Q},
            {"module": "MCInteger", "cfg": "MCInteger", "tiers": T, "workers": 4},
        ],
        "gens": [
            {"module": "MCInteger", "cfg": "GenInteger", "mark": "MEM", "key": "mem", "tiers": Q},
            {"module": "MCInteger", "cfg": "GenIntegerDeep", "mark": "MEM", "key": "mem", "tiers": T},
        ],
        "note": "A reader is checked to end and to agree with the definition on every small memory; the real decoder is run on all small memories over a few byte values, on all short lines over a telling alphabet, and on seeded random and spoiled programs, not on all byte strings. How lines with torn numbers or unknown tokens look is left open.",
    },
    "delivery": {
        "driver": "delivery", "trace": "DeliveryTrace", "cli": True, "chunk": 1 << 20,
        "models": [
            {"module": "MCDelivery", "cfg": "MCDelivery", "tiers": Q},
            {"module": "MCDelivery", "cfg": "MCDeliveryAll", "tiers": T, "workers": 4},
        ],
        "gens": [{"module": "MCDelivery", "cfg": "GenDelivery", "mark": "SD", "key": "sd"}],
        "note": "The loader is run on a model of the processor, boot ROM and drive, for every number of pages; the images the real command wrote are booted on that model, for all generated limits, every number of pages and seeded random binaries, not for all contents. Binaries over the pages the start-up itself uses are compared with the published loader instead.",
    },
    "hello": {
        "driver": "hello", "trace": "HelloTrace", "cli": True, "chunk": 1 << 20,
        "models": [
            {"module": "MCHello", "cfg": "MCHello", "tiers": Q},
            {"module": "MCHello", "cfg": "MCHelloAll", "tiers": T, "workers": 4},
            {"module": "MCNakedOS", "cfg": "MCNakedOSQuick", "workers": 2},
        ],
        "gens": [{"module": "MCHello", "cfg": "GenHello", "mark": "HELLO", "key": "hello"}],
        "note": "The installed program is run on a model of the NakedOS call, for every file and page; storing it is the put of the NakedOS specification. The real command is run on generated arguments and seeded random disks, not on all disks.",
    },
    "hostfiles": {
        "driver": "hostfiles", "trace": "HostFilesTrace", "cli": True, "chunk": 1 << 20,
        "models": [
            {"module": "MCHostFiles", "cfg": "MCHostFiles", "tiers": Q},
            {"module": "MCHostFiles", "cfg": "MCHostFilesDeep", "tiers": T, "workers": 4},
            {"module": "MCNakedOS", "cfg": "MCNakedOSQuick", "workers": 2},
        ],
        "gens": [{"module": "MCHostFiles", "cfg": "GenHostFiles", "mark": "CMD", "key": "cmd"}],
        "note": "That nothing is written before the last step is checked on a model of the commands' phases, for every history of a few commands; the real program is run on every generated kind of command line, in seeded histories in which one command works on what earlier ones left, not on all command lines. Failures of the host's own file system while writing are not tried.",
    },
    "reading": {
        "driver": "reading", "trace": "ReadingTrace", "chunk": 1 << 20,
        "models": [
            {"module": "MCReading", "cfg": "MCReading", "tiers": Q},
            {"module": "MCReading", "cfg": "MCReadingDeep", "tiers": T, "workers": 4},
        ],
        "gens": [
            {"module": "MCReading", "cfg": "GenReading", "mark": "SESSION", "key": "session", "tiers": Q},
            {"module": "MCReading", "cfg": "GenReadingDeep", "mark": "SESSION", "key": "session", "tiers": T},
        ],
        "note": "A reader that may remember answers is checked for every short history on the model; the real code is run through every short sequence of kinds of steps and longer random ones, on generated and real images of all systems, not on all images.",
    },
    "printing": {
        "driver": "printing", "trace": "PrintingTrace", "cli": True, "chunk": 1 << 20,
        "models": [
            {"module": "MCPrinting", "cfg": "MCPrinting", "tiers": Q},
            {"module": "MCPrinting", "cfg": "MCPrintingDeep", "tiers": T, "workers": 4},
        ],
        "gens": [{"module": "MCPrinting", "cfg": "GenPrinting", "mark": "SHOW", "key": "show"}],
        "note": "The steps of the commands are checked on the model for every short listing and every failure; the real program is run with every combination of options on generated, real and spoiled images, next to the library's answers, which the other properties judge.",
    },
    "numbers": {
        "driver": "numbers", "trace": "NumbersTrace", "cli": True, "chunk": 1 << 20,
        "models": [
            {"module": "MCNumbers", "cfg": "MCNumbers", "tiers": Q},
            {"module": "MCNumbers", "cfg": "MCNumbersDeep", "tiers": T, "workers": 6},
        ],
        "gens": [
            {"module": "MCNumbers", "cfg": "GenNumbers", "mark": "NUMBER", "key": "number", "tiers": Q},
            {"module": "MCNumbers", "cfg": "GenNumbersDeep", "mark": "NUMBER", "key": "number", "tiers": T},
        ],
        "note": "A scanner in bounded arithmetic is checked against the definition for all short texts; the real program is run with all texts of up to two (thorough: three) of nineteen characters, telling numbers in every base and random ones, for every option that takes an address. Numbers with leading zeros or underscores are left open.",
    },
    "lookups": {
        "driver": "lookups", "trace": "LookupsTrace", "chunk": 2 << 20,
        "models": [
            {"module": "MCLookups", "cfg": "MCLookups", "tiers": Q},
            {"module": "MCLookups", "cfg": "MCLookupsDeep", "tiers": T, "workers": 6},
            {"module": "MCTables", "cfg": "MCTables", "tiers": Q},
            {"module": "MCTables", "cfg": "MCTablesDeep", "tiers": T, "workers": 6},
        ],
        "gens": [{"module": "MCLookups", "cfg": "GenLookups", "mark": "TEXT", "key": "text"},
                 {"module": "MCTables", "cfg": "GenTables", "mark": "MEMORY", "key": "memory"}],
        "note": "What short texts mean and which small memories are tables is checked exhaustively against machines that read them piece by piece; the real code is asked for those texts (quick: of one table all, of others some), those memories (quick: a sixteenth) and seeded random tables and maps, not all.",
    },
    "validity": {
        "driver": "validity", "trace": "ValidityTrace", "chunk": 3 << 20,
        "models": [
            {"module": "MCValidity", "cfg": "MCValidity", "tiers": Q},
            {"module": "MCValidity", "cfg": "MCValidityDeep", "tiers": T, "workers": 6},
        ],
        "gens": [{"module": "MCValidity", "cfg": "GenValidity", "mark": "BLOCK", "key": "block"}],
        "note": "That what is wrong with a block is exactly what was damaged is checked on all short histories of a file system with a clock; the real code is asked about those blocks, about every byte of seeded random ones replaced by telling (thorough: all) values, and about those of real disks. Dates (year, month, day) and entries not in use are left open.",
    },
}

PROPERTIES = {
    "C01": {"family": "sectors"},
    "C02": {"family": "sectors"},
    "C03": {"family": "opening"},
    "C04": {"family": "nakedos"},
    "C05": {"family": "nakedos"},
    "C06": {"family": "nakedos"},
    "C07": {"family": "nakedos"},
    "C08": {"family": "nakedos"},
    "C09": {"family": "nakedos"},
    "C10": {"family": "dos33"},
    "C11": {"family": "dos33"},
    "C12": {"family": "prodos"},
    "C13": {"family": "damaged"},
    "C14": {"family": "layouts"},
    "C15": {"family": "hostfiles"},
    "C16": {"family": "applesoft"},
    "C17": {"family": "integer"},
    "C18": {"family": "delivery"},
    "C19": {"family": "hello"},
    "C20": {"family": "filetypes"},
    "C21": {"family": "freemaps"},
    "C22": {"family": "sectors", "models": [{"module": "Sectors", "cfg": "MCSectors"}]},
    "C23": {"family": "reading"},
    "C24": {"family": "printing"},
    "C25": {"family": "numbers"},
    "C26": {"family": "validity"},
    "C27": {"family": "lookups"},
}
