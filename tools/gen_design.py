#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written parts (below) plus the properties, the rules and budgets in props/, the findings
and the planted bugs, so that it can't fall behind the code.  Run with python3-vt."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
os.environ.setdefault("VERIF_REPO", "/repo")
for _p in ("", "/bin", "/usenet"):
    sys.path.append(os.environ["VERIF_REPO"] + _p)

HEAD = """# Verification of srrDB/pyrescene by property-based testing and fuzzing

pyrescene turns RAR sets into SRR files and media samples into SRS files, and rebuilds the originals bit for bit from
them. Everything a user relies on is a statement about *all* inputs of a binary format, about *histories* of edits, or
about *faults*; the unit tests hold a handful of bundled files. The properties (properties.jsonl) cover the whole
repository: `rescene/` (R01-R21), `resample/` (S01-S15), `usenet/` and the NZB tools (U01-U04) and the release
scanner `bin/pyrescene.py` (A01-A08; A08 is `bin/preprardir.py`, A05 is `bin/retag.py`, A06 the tools for collections, A07 `scripts/bitflip.py`).

## The method, in common

* **Generators.** Every case is a plain JSON value drawn with Hypothesis 6 (`/opt/veriftools/pyvenv`), by
  construction rather than by rejection. `vh/gen.py` draws RAR sets (naming scheme, volume capacities, header flags,
  extra blocks, recovery records, paddings, end blocks), `vh/content.py` names file contents by (size, seed, kind), so
  cases stay small and shrink, `vh/media.py` draws AVI/MKV/MP4/WMV/FLAC/MP3/stream main files *and* samples that share
  streams, `vh/auto.py` draws whole release directories, `vh/nntp.py` a posted release, `vh/mut.py` structure-aware
  mutations of bytes.
* **Oracles are independent of the code under test.** `vh/rarw.py` writes RAR volumes from the technote (it knows, for
  each byte of a volume, what the SRR has to keep), `vh/walk.py` and `vh/srs.py` read SRR and SRS files on their own,
  `vh/srsfile.py` parses SRS files, and so on. No oracle imports rescene, resample or usenet.
* **Runner.** `check.py <ID> --tier quick|thorough` runs the legs of a property in parallel shards (fork per shard,
  seeded from VERIF_SEED, `database=None`, `deadline=None`), each case in a fresh scratch directory below /tmp that is
  removed; a case limit of 90 s counts as a hang only where the property promises promptness. On a failure the case is
  shrunk, written to `replays/<ID>-*.json`, run again from that file, and reported as `VIOLATION property=<ID>
  replay=<path>`; `--replay` runs the file again without Hypothesis. The code is imported from /repo's working tree
  (VERIF_REPO overrides it), so nothing has to be built and no run can see stale code.
* **Evidence.** `evidence/<ID>.json` states the number of generated and of distinct non-trivial cases (rule per
  property below), classes with their frequency, and samples. A shard that cannot import the code or runs no case makes
  the check fail instead of passing vacuously.
* **Judged by behaviour.** The checks call the public functions and the command line programs (`main(argv)` in a
  forked child with captured output) and look at bytes on disk, return values, documented exception types and exit
  codes. They do not look at messages except where the message *is* the behaviour (listings, error reports), and
  then only at the data in them.
* **Containment.** Everything runs in a scratch directory. Cases in which the code under test is what keeps writes
  inside (R07, S13, A01) use names that can only reach a few levels up inside that same scratch directory, file size and
  memory limits, and no privileged operation; the tool's own temporary folder is redirected into it.

## What the technique cannot do here

It never shows absence: each property is *explored*, thousands of cases per quick run, 30 to 100 times more in the
thorough tier. Sizes are bounded (files to 300 KB, sparse files around 4 GiB where the field width matters; archives to
250 volumes; release trees to some tens of files). Multi-threading does not occur in the repository. What is left out:
the Windows-only branches (long paths, drive letters are only data on POSIX), the GUI-less `awescript`/`scripts`
helpers that are one-off maintenance scripts with hard-coded paths, and `rerar/` (an experiment without callers).
Nothing listed in properties.jsonl is left unclaimed, so `not_applicable` is empty.

"""

N = {}
def n(pid, oracle, why, limits=""):
    N[pid] = (oracle, why, limits)

n("R01", "The bytes the generator wrote. A second leg drives `srr` as a program (create, then -r), a third sets of up to 130 volumes, a fourth sizes at 64 KiB, 128 KiB and 1 MiB.",
  "Byte exactness depends on the product of volume cut x header variant x naming; off-by-one errors show only at particular cuts.",
  "Store mode only (compressed sets: R20). Volumes larger than some MB only through sparse files (R08).")
n("R02", "A model of which volumes are asked for, where each packed file is, and what is on disk before; afterwards the output folder must hold exactly that. Auto-location is judged only with one candidate of that extension and size.",
  "Selections, hints and locations multiply; wrong offsets show only for a proper subset of a set with several files.")
n("R03", "The corrupted bytes differ from the original CRC (checked per case), so a run that ends without a report, or with all volumes claimed, is wrong; a run on good bytes must not report.",
  "The one-byte difference can be anywhere, including at volume borders and in the last byte; tests flip one fixed place.")
n("R04", "An own model of 512-byte sectors: XOR parity over the chosen number of recovery sectors and sector CRCs, byte layout for old and new style.",
  "The protected size modulo 512 and the number of sectors decide which code runs.")
n("R05", "An ordered list of (name, bytes) to which the same operations are applied; compared after each step by listing, raw bytes, extraction, content hash and rebuild.",
  "Histories: add after remove after rename; names that differ in separators or case.")
n("R06", "At every file-system call boundary (audit hook in a forked child) the child is killed or an error raised; the parent then compares the SRR with the complete old and the complete new bytes and looks for stray files.",
  "Crash points cannot be sampled by a unit test.", "Power-loss reordering is out of the model. One fault per run; the clean-up code itself runs without a second fault.")
n("R07", "Recursive snapshot of everything around the output folder before and after; expected set of written files from the stored list.",
  "Hostile names form an open set; consent is asked on a mocked terminal.", "The output folder holds no symbolic links.")
n("R08", "The encoder's own field values (each field of each block) and the partition law: headers + data concatenate to the input.",
  "Any flag combination moves all later fields.")
n("R09", "Only documented exceptions / exit codes are allowed, within 90 s, with file size and memory limits.",
  "All byte strings. Mutations are aimed at header fields, cuts, duplications.", "Rebuilding entries that claim RAR compression is driven only in R20 (it needs executables).")
n("R10", "Pairs of SRRs: equal by construction in everything relevant, or with exactly one relevant difference; plus the hash computed from the metadata in name order.",
  "A metamorphic statement over pairs of files.", "As in rescene.php, what follows the last header of a volume is not hashed. Volume base names are unique without regard to case (known finding otherwise).")
n("R11", "Independent parse of inputs and result; every volume rebuilt from the result.",
  "Any list of inputs, any place of stored files.", "Stored files of one name from several inputs are all kept, in input order (nothing is lost).")
n("R12", "The generated release itself; the printed listing is parsed for its data.",
  "Combination of several sets, SFVs and header options.", "Unique names, see the known findings.")
n("R13", "An independent verdict per packed file (present, size, CRC) after generated damage.",
  "Every kind of damage to every file, among decoys of the same size.", "The tool verifies extracted files, not volumes (its help text).")
n("R14", "Snapshot of the target before and after, plus the fault model of R06.",
  "Every way an input can be unsuitable x whether something exists x the user's answer x crash points.",
  "A missing volume is only known through an SFV.")
n("R15", "io.BytesIO over the unpacked bytes, same sequence of operations.",
  "Stateful: position errors appear only after particular sequences across volume borders.")
n("R16", "The published hash definition, computed independently on bytes.",
  "Sizes around 64 KiB, 128 KiB and overlaps of the two windows, and every volume cut.")
n("R17", "The generator knows the RAR order; permutation of the input must not matter; the successor rule is walked end to end.",
  "Order of lines is unbounded; wrap-arounds (r99 -> s00, .part9 -> .part10) are rare.", "Volume numbers keep their width.")
n("R18", "Texts assembled from known parts.", "All byte strings per line.", "Names are single-byte text (latin-1), as the parser documents.")
n("R19", "zlib.crc32 of the concatenation; an independent polynomial model for lengths up to 2^62.", "All pairs and lengths.")
n("R20", "The generated original set. RAR itself cannot be had offline, so the executables in the repository folder are stand-ins with the same command line that compress with a keyed reversible code; version, thread count and solid mode change their output, so only the right one reproduces the set.",
  "Which executable, thread count and method is right depends on the set; the search and its clean-up have many exits.",
  "The compression itself is a stand-in; what is checked is the tool's search, cutting, volume assembly, reporting and clean-up.")
n("R21", "Every line of the output against the bytes the generator wrote; the same command in UTF-8 against a generated smaller character set, replaced characters aside.",
  "Flags x fields x blocks x names; the terminal of the user.", "Layout and labels of a line are taken from the current output (values are judged); SFX files are not listed by -e.")
SRS = "The sample's bytes. The generator builds the main file and the sample from the same streams with different interleaving, chunking, headers and tags. The tool runs as a program: create, list, check against the main file, rebuild."
SWHY = "The signature search and the interleaving of streams depend on where chunks are cut in *both* files."
n("S01", SRS, SWHY, "Overlapping partial matches of the 256-byte signature are outside the domain (the search restarts behind the failed candidate); a sample starting inside a chunk whose preceding bytes look like a chunk name is ambiguous.")
n("S02", SRS, SWHY, "As S01; stripped headers shorter than every frame; attachments before the clusters.")
n("S03", SRS, SWHY, "One mdat; stz2 tables are refused by the tool.")
n("S04", SRS, SWHY, "As S01.")
n("S05", SRS, SWHY)
n("S06", SRS, SWHY, "A main file with junk before the music needs a tag to be recognised as MP3, the junk holds no ID3/RIFF marker; APEv2 without header.")
n("S07", SRS, SWHY)
n("S08", "Facts of the generator; an independent reader and writer of SRS records.", "Field widths (64-bit sizes, large track numbers) never occur in bundled samples.")
n("S09", "The bytes of the true sample: success may only be claimed with exactly those; snapshot of the output folder.", "All wrong main files: mutated, cut, other movie, other type.")
n("S10", "zlib.crc32 and size of the damaged file itself; round trip.", "All damage.", "A rebuild from an SRS of a damaged sample may be refused, but never falsely successful.")
n("S11", "The same operation with the plain main file.", "All volume cuts.", "The main file starts in the first volume and is the first with a media extension, as the tool documents.")
n("S12", "Cover: the generator's element positions. Fuzz: exit code within 90 s under limits.", "All byte strings.")
n("S13", "Snapshot of the scratch tree around the output folder.", "Open set of names.")
n("S14", "A stand-in fingerprint program that answers with a digest of the bytes and length it got and accepts only what the case chose; the tag layout is the generator's.", "Which bytes reach the external program is invisible without such a program.", "The last resort is only judged when a frame start lies in the 256 bytes before the encoder name.")
n("S15", "A model of the options: the expected path, whether the answers allow it, and a snapshot of the whole scratch tree before and after.", "Options, prompts, existing files and spellings of a path combine freely.", "The sample lies two folders deep; no -o path that is a folder named .srs.")
n("U01", "An own yEnc encoder; damaged bodies must not decode to other bytes.", "All payloads, framings and damages.", "The trailer carries the part's CRC; an article without =ybegin falls back to 'UNKNOWN' raw data by design.")
n("U02", "The values written by an own NZB writer with equivalent spellings.", "XML has many spellings of the same document.", "NZB name space required; no control characters.")
n("U03", "The local bytes, against a loopback NNTP server with injected missing and damaged articles.", "Stateful access sequences and faults.", "Non-RAR names for access/faults (RAR volumes are realigned by design); equal segment sizes.")
n("U04", "Multisets of posts before and after.", "Any list of posts and subject styles.")
n("A01", "The generated release: which file plays which role is drawn before its name; the SRR is parsed independently, all volumes and samples rebuilt. A leg has compressed archives, with and without the option that allows them.", "Roles x folder layout x options.",
  "Samples are drawn so that none matches another's main file; the order of several sets follows the directory and is not judged.")
n("A02", "As A01 for music.", "Discs x tracks x matching.", "Fingerprint program is a stand-in. With an SFV in the root, tracks of sub folders are listed there.")
n("A03", "The tree's drawn structure, and the SRR each release gets on its own.", "Trees.", "Release kinds that are clear-cut by the documented rules.")
n("A08", "The program each distribution was generated with.", "Kinds of distributions next to damaged ones; names, versions and dates combine.", "unrar is a stand-in; time zone UTC.")
n("A07", "The file before it was damaged; which damages the kind of search and the range include.", "Borders of windows, range and file.", "Files to 1500 bytes.")
n("A06", "The characteristics the SRRs were generated with; the SRS the srs tool itself makes; the records of each SRS read by an own reader.", "Each listing is a predicate over files of several kinds, next to damaged ones.", "No two volumes of one SRR have the same base name.")
n("A05", "The original tracks; a model of which file the tool has to work with and which files may be replaced.", "Names, folders, existing files, answers and the state of each track combine.", "No two files of a folder differ only in capitals.")
n("A04", "The drawn nesting; every level rebuilt.", "Nesting x SFVs x names.", "Language blocks are compared as a multiset.")

TAIL_FALSE = """## False alarms met while building, and what was done

* A01: two samples with identical generated streams were matched with each other's main file. The property was right
  for such releases only in a weaker form; the generator now draws distinguishable samples.
* R05: renaming onto an existing stored name was modelled as allowed; the documented behaviour (after the repair) is a
  refusal, model changed.
* R10: bytes behind the last header of a volume were mutated and expected to change the hash; rescene.php's definition
  excludes them, statement and generator changed.
* R13: the first model expected volumes to be verified; the tool's help says extracted files; statement changed.
* R17: numbers that change width inside one set were generated; documented as undefined; domain narrowed.
* U03: `0x00` end blocks of some groups are realigned by design when read over usenet; excluded.
* S06: junk before the music containing `ID3`/`RIFF` markers changes the detected type by design; excluded.
* R09, R14: under a coverage tool the resource limits killed the child; only an artefact of that run.

"""

def main():
    props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
    o = [HEAD]
    known = json.load(open(os.path.join(here, "known_findings.json")))
    plants = {}
    for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
        j = json.load(open(m))
        plants.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j))
    o.append("## The properties one by one\n\n")
    for p in props:
        f = glob.glob(os.path.join(here, "props", p["id"].lower() + "_*.py"))
        o.append("### %s: %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
        orc, why, lim = N[p["id"]]
        if f:
            mod = importlib.import_module("props." + os.path.basename(f[0])[:-3])
            o.append("* *Cases.* %s\n" % mod.RULE[:1].upper().__add__(mod.RULE[1:]).rstrip(".") + "")
            o.append("* *Budget.* %s.\n" % "; ".join("%s: %d quick, %d thorough" % (l.name, l.quick, l.thorough) for l in mod.LEGS))
        else:
            mod = None
        o.append("* *Oracle.* %s\n* *Why tests cannot.* %s\n" % (orc, why))
        a = list(getattr(mod, "ASSUMPTIONS", []))
        if lim:
            a.append(lim)
        if a:
            o.append("* *Domain and assumptions.* %s\n" % " ".join(x.rstrip(".") + "." for x in a))
        for name, j in plants.get(p["id"], []):
            o.append("* *Planted bug* `%s`: %s\n" % (name, str(j["what_it_breaks"]).rstrip(".") + "."))
        o.append("\n")
    o.append(TAIL_FALSE)
    o.append("## Known findings (genuine, recorded, not repaired)\n\n")
    for k in known["findings"]:
        o.append("* %s: %s. Not repaired because %s.\n" % (k["property"], k["what"], k["why"]))
    o.append("\n## Defects found by the checks and repaired in /repo (`fix:` commits)\n\n")
    for k in known["fixed"]:
        o.append("* " + k.replace("fixed: property=", "") + "\n")
    cat = os.path.join(here, "tools", "catches.json")
    if os.path.exists(cat):
        c = json.load(open(cat))
        o.append("\n## Which checks catch which planted bugs\n\n| bug | property | caught by | before strengthening |\n|---|---|---|---|\n")
        for k in sorted(c):
            o.append("| %s | %s | %s | %s |\n" % (k, c[k]["property"], ", ".join(c[k]["caught"]) or "none", c[k].get("first", "")))
    ex = os.path.join(here, "tools", "design_extra.md")
    if os.path.exists(ex):
        o.append("\n" + open(ex).read())
    open(os.path.join(here, "DESIGN.md"), "w").write("".join(o))
    print("DESIGN.md", len("".join(o)))

main()
