#!/usr/bin/env python3
"""Write MANIFEST.json for the properties whose checks are listed here."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    props[p["id"]] = p
NOTES = {
    "C01": "Random trees in random layouts; the events expected come from the tree, not from reading the text.",
    "C02": "One tree in two layouts, boxed and plain; the events are compared with each other and with the tree.",
    "C03": "A protocol automaton over the events of random, mutated and all short texts.",
    "C04": "Random texts, all prefixes of documents and texts of up to a megabyte, through a lexer that checks each position and counts the characters inspected.",
    "C05": "All strings over the 12 significant characters to length 5 (thorough 6), and random texts, against an independent reader.",
    "C06": "Random strings in random quoting, against the contents they were written from.",
    "C07": "Random attribute lists in random quoting, against the attributes they were written from.",
    "C08": "Comments inserted into random documents; the other events must stay.",
    "C09": "Random declarations and uses of prefixes, against scoping computed on the tree.",
    "C10": "Random histories of frames and mappings of a namespace stack against a model.",
    "C11": "Random histories of the tables of names, prefixes and URIs against a model.",
    "C12": "Random histories of qualified names against a model.",
    "C13": "All Unicode scalar values in nine positions (exhaustive), and random names.",
    "C14": "Spans of all events and errors of random and all short texts, against an independent reader.",
    "C15": "Three position types through three lexers; all nine readings must agree.",
    "C16": "Random strings and all sets of optional characters, against an independent escaping and the expansion of the result.",
    "C17": "Random and all short texts of references, against an independent expansion.",
    "C18": "Random and all short texts of escapes, against an independent expansion; reads a private type through the hook.",
    "C19": "Random documents converted to XML and read by an independent XML reader.",
    "C20": "Events of random documents and random constructed events, converted to XML events and compared with what they hold.",
    "C21": "The program run on random files and arguments in a scratch folder.",
    "C22": "Several texts with one namespace stack, in turn and interleaved, against fresh readings.",
    "C23": "The output of a process that uses the whole library must be empty.",
    "C24": "Random events built, asked and taken apart, against what they were built from.",
    "C25": "Random errors and their accessors and messages, against what they were made from.",
    "C26": "The text consumed when each event is delivered, against what the event needs.",
    "C27": "Failures of the token source at random and all early requests; the events must be as without.",
    "C28": "One text through programs built in four configurations; their outputs must agree.",
    "C29": "Random histories of attribute lists, tags and declarations against a model.",
    "C30": "Any strings, with references cut off at any place, through the escape functions.",
    "C31": "Random pairs of ids, mappings, names and attributes, alike in some of their parts.",
    "C32": "The program run with unusable input, output and arguments in a scratch folder.",
    "C33": "Random and all short texts split into tokens, against an independent splitting; and how the tokens are printed.",
}
have = json.load(open(os.path.join(root, "tools", "have.json")))
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "hooks": {
        "guard": "hml_verif",
        "enable": 'RUSTFLAGS="--cfg hml_verif" (only for the checks of C18 and C28)',
        "source_commits": ["12a46ca8086a466ac523b1ef4d59811aff6652ae"],
    },
    "checks": [
        {
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing: generated inputs against an explicit oracle, failures shrunk",
            "level": "exploration",
            "level_note": NOTES[i] + " Not a proof: only the cases generated (and the enumerations named) are decided.",
        }
        for i in props
        if i in have
    ],
    "not_applicable": [],
    "notes": "A replay file is run again by ./check.sh <id> --replay <file>. Known findings are in known-findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
