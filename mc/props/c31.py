"""Which files an export touches."""

import os
import shutil

from .. import files
from ..common import PI, control_data, expect, must, np, package
from ..engine import Family
from ..objects import make_control, segments_for
from ..ref import convert as ref_convert

ASSUMPTIONS = [
    "file names are texts as documented; names are at most 200 bytes long",
    "whether an export to a link or to a file with a second name replaces the link or "
    "writes through it is left open, as long as reading the given name gives the export",
    "permissions and times of the written file are not part of the property",
]

NAMES = [
    "a",
    "A",
    "a ",
    " a",
    "a.",
    ".a",
    "..a",
    "a.csv",
    "a.CSV",
    "a.json",
    "a.txt",
    "a.b.c",
    "a.csv.gz",
    "a~",
    "~",
    "~root",
    "$HOME",
    "%a",
    "{a}",
    "{}",
    "*",
    "a?b",
    "[a]",
    "-",
    "--a",
    "a:b",
    "a|b",
    "a\nb",
    "a\tb",
    "a\\b",
    "'a'",
    '"a"',
    "\u00e4",
    "a\u0308",
    "名前",
    "x" * 200,
    "CSV",
    "JSON",
    "None",
    "0",
]
# what precedes the name; "@" is the absolute path of the tree
PLACES = ["", "./", "sub/", "sub/../", "../other/", "../", "@/", "@/other/./", "linked/"]
STATES = ["absent", "empty", "shorter", "longer", "link", "dangling link", "second name"]
OPTIONS = [
    {"file_type": file_type, "coordinates": coordinates}
    for file_type in ("CSV", "JSON")
    for coordinates in ("cylindrical", "cartesian")
]


def three_pulses():
    return package.DynamicDecouplingSequence(
        10.0,
        np.array([2.0, 5.0, 8.0]),
        np.array([PI, 0.0, 1.0]),
        np.array([0.4, 0.0, -1.0]),
        np.array([0.0, -1.0, 0.0]),
        "three pulses",
    )


OBJECTS = {
    "control": lambda: make_control(segments_for(["tilted down", "third", "idle"]), "c"),
    "other control": lambda: make_control(segments_for(["X", "idle"])),
    "sequence": three_pulses,
}


def check_content(content, thing, options):
    """The content of the file is the export of the object."""
    columns, name = files.parse(content, options["file_type"], options["coordinates"])
    if options["file_type"] == "JSON":
        expect(name == thing.name, "name {!r} instead of {!r}", name, thing.name)
    if isinstance(thing, package.DrivenControl):
        files.compare(columns, options["coordinates"], list(zip(*control_data(thing))))
        return
    segments = files.segments_in(columns, options["coordinates"])
    active, end = ref_convert.timeline(segments, 1e-9)
    expect(
        abs(end - 10.0) < 1e-9 and len(active) == 3, "the file describes {}", segments
    )


class Tree:
    """A directory tree with neighbours of the file to be written."""

    def __init__(self, scratch):
        self.scratch = scratch

    def root(self):
        return os.path.join(self.scratch, "c31-{}".format(os.getpid()))

    def prepare(self, names):
        root = self.root()
        os.chdir(self.scratch)
        shutil.rmtree(root, ignore_errors=True)
        for directory in ("work/sub", "other"):
            os.makedirs(os.path.join(root, directory))
        os.symlink("sub", os.path.join(root, "work", "linked"))
        for directory in ("work", "work/sub", "other", ""):
            for name in names:
                path = os.path.join(root, directory, name)
                if not os.path.lexists(path):
                    with open(path, "wb") as handle:
                        handle.write("neighbour {!r}".format(name).encode("utf-8"))
        os.chdir(os.path.join(root, "work"))
        # names with a tilde or a dollar sign must never lead out of the tree
        os.environ["HOME"] = os.path.join(root, "other")
        return root

    def snapshot(self):
        result = {}
        for directory, folders, names in os.walk(self.root()):
            for name in folders + names:
                path = os.path.join(directory, name)
                if os.path.islink(path):
                    result[path] = ("link", os.readlink(path))
                elif os.path.isdir(path):
                    result[path] = ("directory",)
                else:
                    with open(path, "rb") as handle:
                        result[path] = ("file", handle.read())
        return result

    def target(self, place, name):
        return place.replace("@", self.root()) + name

    def export(self, thing, path, options, allowed):
        """Exports and returns the paths that changed."""
        here = os.getcwd()
        before = self.snapshot()
        must(thing.export_to_file, filename=path, **options)
        expect(os.getcwd() == here, "the working directory became {!r}", os.getcwd())
        after = self.snapshot()
        changed = {
            item for item in set(before) | set(after) if before.get(item) != after.get(item)
        }
        expect(
            changed <= allowed,
            "exporting to {!r} changed {}",
            path,
            sorted(changed - allowed),
        )
        self.check(thing, path, options)
        return changed

    def check(self, thing, path, options):
        expect(os.path.isfile(path), "there is no file {!r}", path)
        with open(path, "rb") as handle:
            check_content(handle.read(), thing, options)

    def put(self, state, path):
        """Brings the target into its state; returns what else may change."""
        if os.path.lexists(path):
            os.unlink(path)
        aside = os.path.join(self.root(), "aside")
        if state in ("empty", "shorter", "longer"):
            with open(path, "wb") as handle:
                handle.write({"empty": b"", "shorter": b"x", "longer": b"old\n" * 4000}[state])
        elif state in ("link", "second name"):
            with open(aside, "wb") as handle:
                handle.write(b"old\n" * 500)
            (os.symlink if state == "link" else os.link)(aside, path)
        elif state == "dangling link":
            os.symlink(aside, path)
        return {aside} if state in ("link", "dangling link", "second name") else set()

    def run(self, case):
        name = case["name"]
        options = OPTIONS[case["options"]]
        neighbours = [
            name + ending for ending in (".csv", ".json", ".tmp", "~", ".bak", ".CSV", " ", "_")
        ]
        neighbours += [".csv", "export", name.lower() + "x", name.strip() + "0", "b" + name]
        self.prepare([item for item in neighbours if item != name])
        path = self.target(case["place"], name)
        allowed = self.put(case["state"], path)
        allowed.add(self.real(path))
        thing = OBJECTS[case["object"]]()
        changed = self.export(thing, path, options, allowed)
        return (case["name"], case["place"], case["state"], case["options"], len(changed))

    def real(self, path):
        """The path as the walk through the tree reports it."""
        directory = os.path.realpath(os.path.dirname(path) or ".")
        return os.path.join(directory, os.path.basename(path))

    def run_two(self, case):
        """Two exports, to the same or to different names."""
        self.prepare([])
        things = [OBJECTS["control"](), OBJECTS[case["second object"]]()]
        paths = [
            self.target("", case["first name"]),
            self.target(case["second place"], case["second name"]),
        ]
        options = [OPTIONS[case["first options"]], OPTIONS[case["second options"]]]
        for thing, path, option in zip(things, paths, options):
            self.export(thing, path, option, {self.real(path)})
        if self.real(paths[0]) != self.real(paths[1]):
            self.check(things[0], paths[0], options[0])
        return tuple(paths) + (case["first options"], case["second options"])


def families(tier, scratch):
    deep = tier == "thorough"
    tree = Tree(scratch)
    return [
        Family(
            "one export",
            [
                ("name", NAMES),
                ("place", PLACES),
                ("state", STATES),
                ("options", range(4) if deep else [0, 3]),
                ("object", list(OBJECTS) if deep else ["control", "sequence"]),
            ],
            tree.run,
        ),
        Family(
            "two exports",
            [
                ("first name", NAMES),
                ("second name", NAMES),
                ("second place", ["", "sub/", "../other/"] if deep else ["", "sub/"]),
                ("first options", range(4) if deep else [0, 2]),
                ("second options", range(4) if deep else [1, 2]),
                ("second object", ["other control", "sequence"] if deep else ["other control"]),
            ],
            tree.run_two,
        ),
    ]
