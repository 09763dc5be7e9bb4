"""Writes DESIGN.md from tools/props.py, the constants of the check modules,
the notes below, known_findings.txt and seeded/*/meta.json."""
import ast, collections, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
from gen import consts, NA

INTRO = open(os.path.join(V, "tools", "design_intro.md")).read()

# What was decided about the meaning of the property: cases that are left out
# because the documentation does not settle them, behaviour pinned by the
# existing tests, and false alarms that were corrected.
NOTES = {
"C01": "The \"near\" space puts the score just below, at and above the threshold.",
"C02": "`score A 0` and scores by mode follow the documentation; a rule whose name starts with `__` is checked but not reported.",
"C06": "What a later line of another type does with the options given before it is as the parser documents; no line is judged twice.",
"C07": "False alarms corrected: `add_header all : value` is valid; the order of rules that are first mentioned by an option line (ZZ).",
"C09": "The uri_detail option is left out (its value isn't an option's).  The catalogue of options (`mc/options.json`) is committed; an option that is missing in the code is a violation.",
"C10": "One known finding (whitelist_subject, see below) is explored in a space of its own so that it hides nothing.",
"C11": "Users are names of a path catalogue in stand-in homes (`mc/site.py`), nothing outside the scratch directory can be reached.",
"C12": "The scheduler runs the real threads one at a time with a trace function.  Plain assignments cannot fail, so no fault is placed on them (false alarm corrected).",
"C13": "Line breaks of a reply are the daemon's (CRLF); the translation of the message's own line breaks is left to C21.",
"C14": "A bare CR inside of an echoed Set value is left out.",
"C16": "Pairs and triples of messages; later messages must have the result they have as the first one.",
"C18": "Configuration files are latin-1, so non-ASCII text in rules is written with escapes.  `:addr`/`:name` of a value without an address and encoded words on continuation lines are left out.",
"C19": "Left out: mimeheader on the headers of the message itself, `!~`, contents of script/style elements and unfinished tags.",
"C20": "perl itself is the oracle.  Left out: \\B in an empty text, references to later groups, counts of nothing, `^` after the final newline with m, `(?#c)` before a quantifier, possessive quantifiers and quantified assertions, two x flags; `(?>...)` is documented as a plain group.",
"C21": "If the same header is both added and removed either result is accepted.",
"C22": "Unknown tags, tags that share an underscore and LASTEXTERNAL* without an external relay have no specified value.",
"C23": "2001:db8::/32 counts as private, so other prefixes are used; a relay without address is in no list.",
"C24": "Whether From is a default sender header is not settled between documentation and code, and not judged.",
"C26": "A sender with `=` is cut at the last one (pinned by tests); HELO literals with private peers are left out.",
"C27": "Entries with several names are not judged; the SPF library makes its own queries and is left out.",
"C28": "Left out: numeric masks with several bits, addresses that are only part of the pattern, private relays.",
"C29": "A host that is both listed and excluded is unspecified; entries without @, ? or . are ignored (pinned); addresses are those of email.utils.",
"C30": "Messages with the same Message-ID are the same message.",
"C32": "A higher priority runs first here, so the AWL rule has a negative one.  For concurrent checks any serial order is accepted.  (False alarm corrected: a rule that matched a part of a word.)",
"C35": "Two plugins that set the same option name were an artefact of the harness (corrected).",
"C36": "Several meta tags of one kind in a pattern are unspecified; the documentation exchanges the descriptions of post and inter, the examples decide.",
"C37": "The doc says that only headers that could have been added by an internal relay count; the code took any (fixed).  A Received-SPF header with Authentication-Results beside it is not judged.",
"C38": "Left out: pyzor_servers without a space after the comma, ADSP, and the author signature rule (a known finding of C44).",
"C39": "Scores of short-circuited messages and sizes beyond a few hundred kB are not judged.",
"C40": "The `reply` option with a free-mail Reply-To and another From, and the limits pinned by the tests (n allows fewer than n), are not judged.",
"C41": "A malformed condition is ignored (pinned); `!~` over several texts is not judged.",
"C42": "The host name of the Received header is normalised for real processes.",
"C43": "check_rbl_sub needs the rule of its zone, so those are one unit (false alarm corrected).",
"C44": "A third party's signature does not make a message signed, only the topmost signature counts (pinned); the author is the first address of each From; whether a signature without domain counts as one is left open; ADSP is left out.",
"C45": "Ties at the 150th place and scores on the edge of a band are skipped.",
"C46": "Ports and users in the hosts of links are not judged.",
"C47": "False alarms corrected: the trail rule compares the full reverse name with the domain of the receiver (pinned by unit tests); a relay at a private address that says HELO with a public address is not judged (the parser takes the public one).",
"C48": "Dates in the future are not judged for age; with an even number of relays the later middle one counts (pinned by unit tests).  Both orders and several host time zones are run.",
"C49": "mime_base64_encoded_text, mime_missing_boundary, the quoted-printable line, ASCII text and charset rules are left out.",
"C50": "Names of images come from the Content-Type header only; images are built bytes of known sizes.",
"C52": "A similarity that is exactly at a bound is not judged; check_for_unique_subject_id, check_outlook_message_id and check_messageid_not_usable are left out.",
"C51": "The words of stock names are judged where they stand alone.",
}

TABLE = collections.OrderedDict()
out = [INTRO, "## Properties\n"]
for p in props.P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    path = os.path.join(V, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        out.append("Not claimed: %s\n" % NA.get(p["id"], "no check built."))
        continue
    c = consts(path)
    out.append("* Decided by: %s.\n* Bounds: %s" % (c["TECHNIQUE"], c["LEVEL_NOTE"]))
    out.append("* Not reached by the tests because: %s" % p["why_tests_cant"])
    if c["ASSUMPTIONS"]:
        out.append("* Assumes: %s." % "; ".join(c["ASSUMPTIONS"]))
    if p["id"] in NOTES:
        out.append("* Decisions: %s" % NOTES[p["id"]])
    out.append("")

fixed = collections.Counter()
findings = []
for line in open(os.path.join(V, "known_findings.txt")):
    if line.startswith("fixed:"):
        fixed[line.split("property=")[1].split()[0]] += 1
    elif line.startswith("finding:"):
        findings.append(line)
out.append("## Defects found\n")
out.append("%d defects of the original tree were repaired by \"fix:\" commits in /repo (each is listed with its commit in `known_findings.txt`): %s.\n" % (
    sum(fixed.values()), ", ".join("%s %d" % kv for kv in sorted(fixed.items()))))
out.append(open(os.path.join(V, "tools", "design_findings.md")).read())

out.append("## Planted bugs\n")
out.append("`seeded/<id>/` has changes that break a property while the tests pass, made from the text of the properties (`tools/bugs/*.py`, `tools/plant.py` applies, builds, tests and demonstrates each).  The check of the property catches every one of these; those that were missed at first led to the spaces named here.\n")
out.append("| bug | property | needs | breaks |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
out.append("")
out.append("Spaces that were added because a planted bug was missed: C01 \"near\" (ties at the threshold), C20 flags on repeated groups, C22 \"relays\", C34 \"amounts\" (scores of short circuits), C46 \"long\" (length limits), C42 \"order\" (which file has the last word), C44 \"domains\" (rules that name several domains), C26 mapped private addresses.\n")
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
