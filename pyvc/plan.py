"""What is proved for each property, and what the bounded hunts stand in for."""

TRUSTED = [
    "pyvc/interp.py: the meaning given to the Python statements and expressions of the functions under contract",
    "pyvc/models.py: the contracts of the built-ins and of the methods of str, list, tuple, set and dict",
    "z3 and cvc5",
    "identity: two objects that are alive have different id()",
    "hash(): different values of `_get_hash` have different hashes",
    "a str subclass behaves as str; integers are mathematical, as in Python",
]

# What the discharged obligations say. A property without an entry has no contract yet.
PROVED = {
    "C01": "alternatives of a container hint cover every child; lists, sets, tuples, iterators and Series make a child of "
           "every element, or of the first element of every structure; every key of a mapping gets the node of a value with "
           "the type of its own; merging dictionaries keeps every key and type, and what "
           "children of consumed iterators became; simple values have no children; lines are joined without loss",
    "C02": "every alternative stems from a child, sorted and distinct; every child stems from an element; Any only for no "
           "children",
    "C03": "names used by the hints of containers, instances, callables and classes are imported; names are unique; which "
           "syntax a TypedDict needs; names made of keys consist of characters a name may have; every keyword asked for gets its "
           "import statement, sorted and laid out; all symbols of a signature are imported or found unknown; the ordered set of "
           "definitions keeps each once and in order",
    "C04": "two nodes are equal exactly if class and hash value are; hashes are those of the first call; hashes of every "
           "kind of node, DataFrames included, tell what their hints tell",
    "C05": "the similarity of two dictionaries; whether the values of their common keys are of the same type; which "
           "dictionaries are merged; keys and requirement of the merged TypedDict",
    "C06": "how alternatives are joined for every container and strategy; which mappings are TypedDicts; form and text of "
           "either kind of TypedDict",
    "C07": "the elements that get a child are the first N of the iteration order, in order",
    "C08": "what every kind of node is built from; height and the permission to be defined, for every kind of node; order of definitions kept",
    "C09": "a configuration is accepted exactly inside its domain; names are valid identifiers that are no keywords; a name that "
           "is rejected reaches neither the parsing of the data nor a file; both tools keep the strategies they were given",
    "C10": "which files the live tool reads and writes while it handles data, for any data and file system; the YAML loader "
           "only reads the file given and writes in its temporary directory; what is returned is the data or a copy of it",
    "C11": "registering, adding and resetting: which files are written or removed, and with which text added, for every state of "
           "the directory; overloads, imports and classes are added once; the initial "
           "interface is the tool's own source without bodies and private methods",
    "C12": "what a comparison ignores is exactly the docstrings of classes and the module; a call is rejected exactly if the strategies ask for it and the hints differ from those on file, and then nothing is "
           "written; otherwise the source is that of the new data and the class is registered once; reset removes every generated "
           "file and nothing else",
    "C13": "which keys of a dictionary are read as keys; hidden keys never get a child and are removed from data, however nested, "
           "without touching anything else; documentation of a key stems from its own hidden key; which lines hold comments, "
           "to whom block and side comments belong; their texts, one per line of the file, and their layout as a hidden key; the key of a line; the temporary file and that it is "
           "removed; both ways of loading a file",
    "C14": "the position of the first # outside quotes; the text of a side comment; the lines of a block comment, up to the next "
           "line that is none; every line of it is told, and the text ends with a full stop",
    "C15": "words and length of the lines that documentation is split into; how they are laid out in a docstring and in the "
           "text of a TypedDict; what is escaped",
    "C16": "which kind of node a value gets; hints of instances, classes, modules, streams, arrays, callables, "
           "lambdas; whether a function returns something and whether its hints can be evaluated",
    "C17": "which lines the editing operations change, and which places a search returns; that private methods are removed with "
           "decorators and body, and no line of anything else; decorators and signatures",
    "C18": "the ordered set of definitions keeps what it was given in order, and hands out copies; a file is written with the "
           "text that is rendered, to the path asked for, and nothing else is written",
    "C19": "alternatives are a function of the children: one per child in order, or sorted; import statements are a function of the "
           "set of keywords",
    "C20": "which columns can be literals; one child per distinct first-level column in order; the accessors and accepted "
           "keys of the class; when a frame gets one",
}

BOUNDED = {}
HUNT_RULE = {}
ASSUMPTIONS = {}
NOT_APPLICABLE = {}


def has_proofs(pid):
    return pid in PROVED


def level(pid):
    return "proof" if pid in PROVED else "exploration"


def technique(pid):
    if pid in PROVED:
        return ("contracts on the real functions, read from /repo's source on every run; obligations discharged by z3 and "
                "cvc5; run-time contracts on random inputs for the functions beyond reach")
    return "contracts checked at run time on the real code (bounded)"


def note(pid):
    if pid not in PROVED:
        return "Bounded: contracts evaluated on random inputs."
    text = f"Proved for all inputs: {PROVED[pid]}. "
    return text + "Bounded (random inputs through the real program): " + BOUNDED.get(
        pid, "the composition of these functions into the property as stated") + "."
