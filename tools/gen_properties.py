#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, **extra):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(extra)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- SRR ----
p("R01", "SRR rebuild of uncompressed RAR sets is byte-identical",
  "For every well-formed uncompressed (store-mode) RAR set, creating an SRR file from it and then reconstructing "
  "from that SRR plus the unpacked files yields every original volume, under its original name and with "
  "identical bytes. This holds for old-style, new-style and numeric volume naming, any number of volumes and packed "
  "files, sub-directories, and any legal mix of header fields, extra blocks, padding and missing end blocks.",
  ["inputs"], "all RAR sets the format allows in store mode: archives x volumes x files x sizes x header flags x block kinds",
  "The tests rebuild a handful of bundled archives; byte-exactness must hold for every header combination and every "
  "split of files over volumes, an unbounded product of structures.",
  ["rescene/main.py", "rescene/rar.py"],
  [("create_srr", "rescene/main.py create_srr/_handle_rar"), ("reconstruct", "rescene/main.py reconstruct/_repack/_store"),
   ("RarReader", "rescene/rar.py RarReader block iteration")])
p("R02", "Rebuild selects the right volumes and finds the right files",
  "Reconstruction restores exactly the requested volumes: a complete multi-set SRR, one named volume, or the volumes that share a "
  "requested name prefix. With recorded paths it recreates the directory layout, with flat output "
  "it does not; packed files are found by name, by a rename hint, or by size and CRC when auto-locating, "
  "and an existing output file is only replaced with consent.",
  ["configurations", "inputs"], "all combinations of path options, single-volume requests, hints, auto-locate and pre-existing outputs over generated release layouts",
  "Tests use one layout per option; interactions between options, several sets and similarly named files are a product space.",
  ["rescene/main.py", "rescene/srr.py"],
  [("reconstruct options", "rescene/main.py reconstruct(srr_part, hints, auto_locate, extract_paths)"),
   ("file location", "rescene/main.py _locate_file"), ("overwrite consent", "rescene/main.py can_overwrite/_opath")])
p("R03", "A rebuild from wrong input is always reported",
  "If a supplied file differs from the original packed file (changed bytes, truncated, extended or missing), "
  "reconstruction never finishes silently as if it succeeded: it reports a CRC, size or missing-file problem. "
  "A byte-correct input never produces such a report.",
  ["inputs"], "all single and multiple corruptions of every packed file over generated RAR sets",
  "Tests flip one byte in one file; detection must hold at every offset, in every volume and file position.",
  ["rescene/main.py"],
  [("CRC check", "rescene/main.py reconstruct/_repack CRC bookkeeping"), ("size check", "rescene/main.py _locate_file/_store")])
p("R04", "Recovery records are dropped from SRRs and regenerated exactly",
  "For both old-style (protect block) and new-style recovery records with any legal number of recovery sectors, the SRR omits the recovery data itself, "
  "and reconstruction recomputes it from the rebuilt volume so that it equals the original byte for byte.",
  ["inputs"], "all store-mode volumes carrying old or new recovery records: sector counts x protected sizes x alignments",
  "The tests hold one or two recovery records; parity and sector CRC arithmetic depends on sizes modulo 512 and on the sector count.",
  ["rescene/main.py", "rescene/rar.py"],
  [("recovery writing", "rescene/main.py _write_recovery_record"), ("removal", "rescene/main.py _handle_rar"),
   ("header fields", "rescene/rar.py RarProtectBlock / RarNewSubBlock")])
p("R05", "Editing stored files behaves like an ordered name-to-bytes map",
  "After any history of adding, removing and renaming stored files, the SRR lists and extracts exactly the files, order and bytes "
  "of an ordered map subjected to the same operations; unknown names change nothing and adding a duplicate name is refused. "
  "RAR metadata, content hash and the ability to rebuild are unaffected by any such history.",
  ["histories"], "all sequences of add/remove/rename/extract operations over generated SRR files, including SRRs without RARs",
  "Unit tests run single operations; interactions between order, duplicates, patterns, paths and repeated rewriting need histories.",
  ["rescene/main.py", "rescene/srr.py"],
  [("add", "rescene/main.py add_stored_files"), ("remove", "rescene/main.py remove_stored_files"), ("rename", "rescene/main.py rename_stored_file")])
p("R06", "A failed or interrupted edit never loses the SRR file",
  "Whatever input error, I/O error or process death happens while stored files are added, removed or renamed, an SRR file exists at its path "
  "at every moment and is either completely the old version or completely the new one. Reported failures leave the old bytes and no stray temporary files.",
  ["crash_points", "fault_sequences"], "every file-system operation of an edit as a crash point, every write size limit, every missing/unreadable input",
  "Tests never inject failures; the guarantee is about all intermediate states.",
  ["rescene/main.py"],
  [("temp file + replace", "rescene/main.py add_stored_files/remove_stored_files/rename_stored_file"), ("cleanup", "rescene/main.py exception handlers around temp files")])
p("R07", "Extraction is byte-exact and confined to the output directory",
  "Extracting stored files from any SRR writes every selected file with exactly its stored bytes at its stored relative path (or flat on request) and reports precisely "
  "which files were written. No stored name, including absolute, parent-relative, backslash or drive forms, makes extraction or rebuilding write outside the chosen output directory, and existing files are not replaced without consent.",
  ["inputs"], "all stored names (hostile included), contents, selections and pre-existing output states",
  "Tests extract friendly names only; containment is a statement about every possible name in an untrusted file.",
  ["rescene/main.py", "rescene/rar.py"],
  [("output path", "rescene/main.py _opath / extract_files"), ("stored name", "rescene/rar.py SrrStoredFileBlock")])
p("R08", "Block parsing partitions every archive without losing a byte",
  "Reading any well-formed SRR or RAR file block by block yields blocks whose raw headers, plus the data that follows them, concatenate to exactly the input, with positions, sizes, names, "
  "CRCs, sizes and times equal to what was encoded. Blocks written by the tool parse back to the same field values.",
  ["inputs"], "all sequences of valid SRR/RAR blocks with any field values, flags, unicode names and data sizes",
  "Tests parse sample files; field and flag combinations (large file, salt, extended time, unicode, comments) are unbounded.",
  ["rescene/rar.py"],
  [("RarReader", "rescene/rar.py RarReader/_read"), ("block classes", "rescene/rar.py RarPackedFileBlock, SrrStoredFileBlock, SrrHeaderBlock, ...")])
p("R09", "Malformed SRR and RAR input is rejected cleanly",
  "For any byte string, truncated, mutated or random, listing, hashing, extracting, verifying and rebuilding terminates "
  "promptly and either succeeds or fails with one of the tool's documented errors; on the command line it ends with an exit code and a message, never a hang or a raw crash.",
  ["inputs"], "all byte strings: structured mutations of valid files, truncations at every offset, random noise",
  "Robustness against arbitrary bytes cannot be sampled by a few bad files.",
  ["rescene/rar.py", "rescene/main.py", "rescene/srr.py"],
  [("reader validation", "rescene/rar.py RarReader.__init__/_read"), ("CLI error mapping", "rescene/srr.py main")])
p("R10", "The content hash depends on RAR metadata and nothing else",
  "Two SRR files of the same RAR volumes have the same content hash regardless of stored files, application name, "
  "path storage, volume order and renames by letter case; changing, adding or removing any RAR header information or volume changes the hash.",
  ["inputs"], "all generated RAR sets, all irrelevant variations and all single relevant mutations",
  "An equivalence over pairs of files: tests compare a few fixed pairs.",
  ["rescene/main.py"], [("content_hash", "rescene/main.py content_hash")])
p("R11", "Merging SRRs keeps every stored file and every volume",
  "Merging any list of SRR files produces one valid SRR that contains all stored files with their bytes and all RAR "
  "volumes of the inputs, in input order with duplicates of stored names handled once, and from which each input release can still be rebuilt byte for byte.",
  ["inputs"], "all lists of generated SRR files (stored-only, RAR-only, mixed, overlapping names)",
  "Tests merge one pair; ordering, overlap and metadata mixing is combinatorial.",
  ["rescene/main.py", "bin/srr_merge.py"], [("merge_srrs", "rescene/main.py merge_srrs")])
p("R12", "Reported contents describe the real release",
  "For every SRR created from a RAR set the reported listing states exactly the stored files and sizes, every RAR volume with its size and CRC, "
  "every archived file with its full unpacked size and CRC, the recovery totals, the compression indication and the SFV entries of the release.",
  ["inputs"], "all generated releases: files spanning volumes, unicode and duplicate names, SFV variants, recovery records",
  "Accumulating sizes and CRCs over volumes depends on the split layout; tests check single fixtures.",
  ["rescene/main.py", "rescene/srr.py"], [("info", "rescene/main.py info"), ("listing", "rescene/srr.py display_info")])
p("R13", "Verification verdicts match the files on disk",
  "Verifying a release against its SRR reports success exactly when every volume (or extracted archived file, when the volumes are absent) named by "
  "the SRR is present with the recorded CRC, and the exit status tells missing files from corrupt ones. Any altered, truncated or deleted file turns the verdict.",
  ["inputs"], "all generated releases x all sets of corrupted, truncated and missing files",
  "Verdict correctness is over all damage patterns; tests have none.",
  ["rescene/srr.py", "rescene/main.py"], [("verify", "rescene/srr.py verify_extracted_files / verify main")])
p("R14", "Refused or failed SRR creation leaves existing files intact",
  "Creating an SRR from unsuitable input (compressed when not allowed, a non-first volume, a missing volume or file, an empty or broken "
  "SFV, a damaged archive) fails with an error, leaves no partial SRR and, without consent, never changes or deletes an SRR that already existed at the target.",
  ["inputs", "fault_sequences"], "all defective inputs x target pre-states x API and command line",
  "Each failure path cleans up differently; tests only check that errors are raised.",
  ["rescene/main.py", "rescene/srr.py"], [("create_srr cleanup", "rescene/main.py create_srr"), ("CLI creation", "rescene/srr.py create_srr")])
p("R15", "Reading a file inside a RAR set equals reading the plain file",
  "Opening a packed file through its uncompressed RAR volumes gives a read-only stream that, for every sequence of seek, tell, read, "
  "readline and partial reads, returns exactly what the same operations on the unpacked file return, across volume boundaries.",
  ["histories"], "all store-mode volume splits x all operation sequences",
  "Offset arithmetic at volume boundaries needs arbitrary seeks and read lengths; tests use one archive.",
  ["rescene/rarstream.py"], [("RarStream", "rescene/rarstream.py RarStream.read/seek"), ("FakeFile", "rescene/rarstream.py FakeFile")])
p("R16", "OSO/ISDb hashes equal the reference definition",
  "For every file of at least 64 KiB the computed hash is the file size plus the 64-bit word sums of its first and last 64 KiB modulo 2^64, as 16 hex digits, identical whether "
  "computed from a plain file, through RAR volumes, or recorded in an SRR, and smaller files are refused without a record.",
  ["inputs"], "all files around and above the size threshold and all volume splits",
  "Overflow, non-multiple-of-8 sizes and volume boundaries are not covered by single vectors.",
  ["rescene/osohash.py", "rescene/main.py"], [("osohash", "rescene/osohash.py compute_hash / osohash_from")])
p("R17", "Volumes are ordered and grouped as RAR itself does",
  "The resulting SRR and the set of detected archives do not depend on the line order or letter case order of an SFV file or of the given "
  "names: volumes follow the RAR volume sequence for every naming scheme, each set is entered through its first volume, and "
  "the successor name rule steps through exactly that sequence.",
  ["inputs"], "all permutations of SFV lines and input lists over all naming schemes, including roll-over r99 to s00 and partNN width",
  "Ordering laws are over permutations and long sequences; tests check a few names.",
  ["rescene/rar.py", "rescene/utility.py", "rescene/main.py"],
  [("is_rar/first_rars", "rescene/utility.py"), ("next_archive", "rescene/utility.py next_archive"), ("_handle_sfv", "rescene/main.py")])
p("R18", "SFV parsing recovers exactly the listed names and checksums",
  "For every SFV text built from comment lines, blank lines and name/CRC entries, in any of the supported encodings, line endings and spacings, "
  "parsing returns exactly the entries (in order, with names and checksums) and the comments, and malformed lines are never mistaken for entries.",
  ["inputs"], "all SFV texts over names with spaces, unicode and punctuation, separators and line endings",
  "A grammar-level statement; tests list a few lines.",
  ["rescene/utility.py"], [("parse_sfv_data", "rescene/utility.py parse_sfv_data/parse_sfv_file")])
p("R19", "CRC combination obeys the concatenation law",
  "Combining the CRC-32 of any two byte strings with the length of the second equals the CRC-32 of their concatenation, for every "
  "length including zero and beyond 4 GiB, and is associative.",
  ["inputs"], "all pairs/triples of byte strings and lengths",
  "An algebraic law over all inputs.", ["rescene/crc32combine.py"], [("crc32_combine", "rescene/crc32combine.py")])
p("R20", "Compressed sets are rebuilt with the right RAR version, or not claimed",
  "Given a folder of RAR executables that holds the version a compressed set was made with, and thread limits that allow the count it was "
  "made with, reconstructing from the SRR (made with compression allowed) plus the extracted files gives the original volumes byte for byte "
  "without CRC warnings: solid or not, with stored files, empty files and directories among them, over any number of volumes, for files that "
  "are renamed (hints), and also when the data depends on a neighbouring file. In all other cases (version missing, a file missing or changed) "
  "the rebuild fails or reports a CRC mismatch; wrong volumes are never claimed. The inputs and the folder with executables stay as they are, "
  "nothing is left in the temporary directory and an earlier rebuild in the same process has no influence.",
  ["inputs", "histories"], "all generated compressed sets x RAR repositories x thread limits x states of the extracted files",
  "The tests have no RAR executables at all; what decides is the search over versions, threads and neighbouring files.",
  ["rescene/main.py", "rescene/srr.py"], [("compressed_rar_file_factory, CompressedRarFile, CompressedRarFileAll, RarArguments", "rescene/main.py"),
  ("-z, -t, --mt-set/min/max", "rescene/srr.py")])
p("R21", "Listings and details show every block as it is, on any terminal",
  "The details (-e) of any RAR volume or SRR list every block in file order with its type, position, header bytes, CRC, flags, sizes, names, "
  "times and the other fields as they are in the file, and end with a hash of the SRR that depends on the RAR data alone. Listing, details, extraction, "
  "verification and rebuilding work the same on a terminal that can't show a name: only the characters it lacks are replaced. This goes for SRS files too.",
  ["inputs"], "all RAR volumes and SRRs of generated blocks with arbitrary field values x names x terminal character sets",
  "Every combination of flags and fields gives another listing; tests look at a few bundled files in UTF-8.",
  ["rescene/rar.py", "rescene/srr.py", "resample/srs.py"], [("explain", "rescene/rar.py RarBlock.explain and its subclasses"), ("content_hash", "rescene/main.py content_hash"),
  ("-l, -e", "rescene/srr.py"), ("replace_unencodable", "rescene/utility.py")])
# ---------------------------------------------------------------- SRS ----
def srs(id, name, desc, files, where):
    p(id, "%s samples rebuild byte-identically from SRS + main file" % name,
      "For every well-formed %s sample whose streams occur contiguously in a main file (%s), creating an SRS and "
      "rebuilding from that SRS plus the main file reproduces the sample byte for byte and reports success." % (name, desc),
      ["inputs"], "all generated %s containers: structure x stream interleavings x sizes x cut positions x match offsets" % name,
      "The tests exercise single fixtures; container nesting, sizes encodings, padding and the position of the match form an unbounded space.",
      ["resample/main.py"] + files,
      [("profile/create/find/rebuild", where), ("container reader", files[0])])
srs("S01", "AVI", "any interleaving of chunks, odd sizes, index chunks, trailing data", ["resample/riff.py"],
    "resample/main.py avi_profile_sample, avi_create_srs, avi_find_sample_streams, avi_rebuild_sample")
srs("S02", "MKV", "any track numbers, lacing, element size widths, attachments", ["resample/ebml.py"],
    "resample/main.py mkv_* functions")
srs("S03", "MP4", "any chunk/sample tables, 32/64-bit sizes and offsets, several tracks", ["resample/mov.py"],
    "resample/main.py mp4_* / mov functions")
srs("S04", "WMV", "any stream count, packet and payload layout, padding", ["resample/asf.py"],
    "resample/main.py wmv_* functions")
srs("S05", "FLAC", "any metadata blocks and leading or trailing tags that differ from the main file", ["resample/flac.py"],
    "resample/main.py flac_* functions")
srs("S06", "MP3", "any combination of ID3v1, ID3v2, Lyrics3 and APE tags differing from the main file", ["resample/mp3.py"],
    "resample/main.py mp3_* functions")
srs("S07", "Raw stream (VOB, MPEG, TS)", "any contiguous slice of the main file", ["resample/stream.py"],
    "resample/main.py stream_* functions")
p("S08", "SRS metadata is truthful and survives serialisation",
  "An SRS records exactly the sample's name, size and CRC-32 and, for every stream, its number, byte count and signature; reading it back returns "
  "the same values for every legal value, including 64-bit sizes and offsets, large track numbers and non-ASCII names.",
  ["inputs"], "all sample files and all field values", "Round trip over value ranges and flag combinations; tests use few values.",
  ["resample/main.py"], [("FileData/TrackData", "resample/main.py FileData, TrackData serialize/__init__"), ("load_srs", "resample/main.py *_load_srs")])
p("S09", "A wrong main file never yields a claimed success",
  "Rebuilding a sample against a main file that lacks or differs in the sample's data never reports success unless the output is the exact original sample, "
  "and a failed rebuild neither replaces nor deletes a pre-existing output file and leaves no wrong file behind unless asked to keep it. "
  "Checking a sample against a main file that lacks the start of one of its tracks fails and makes no SRS.",
  ["inputs"], "all mutations of main files and SRS/main pairings, for every container",
  "A negative statement over all wrong inputs.",
  ["resample/srs.py", "resample/main.py"], [("verification", "resample/srs.py main, resample/main.py rebuild_sample CRC check")])
p("S10", "Damaged or truncated samples are refused at creation",
  "A sample that ends in the middle of a structure (AVI chunk, MKV element, MP4 atom, WMV object, FLAC metadata block) is refused. Creating an SRS from any other truncated, broken or unsupported sample ends with an error or a truthful record of the name, size and CRC-32 "
  "of the file as it is, from which a rebuild gives the very same bytes or fails with an error; creation never leaves a partial SRS or changes a pre-existing SRS without consent.",
  ["inputs"], "all truncations and mutations of generated samples, for every container",
  "Every truncation offset of every container cannot be listed as unit tests.",
  ["resample/srs.py", "resample/main.py"], [("size check", "resample/main.py profile functions"), ("CLI", "resample/srs.py main")])
p("S11", "Rebuilding from main files inside RARs equals plain files",
  "Using a main file packed in store-mode RAR volumes, addressed through its first volume, gives the same search result and the same rebuilt "
  "sample as using the extracted main file, for every volume split.",
  ["inputs"], "all volume splits and volume naming schemes, for every container",
  "Boundary conditions depend on where volumes cut streams and frames.",
  ["resample/main.py", "resample/srs.py", "rescene/rarstream.py"], [("RAR-aware readers", "resample/main.py *_find_sample_streams + rescene/rarstream.py")])
p("S12", "Container readers terminate and account for every byte",
  "For any byte string offered as AVI, MKV, MP4, WMV, FLAC, MP3 or stream sample or as an SRS file, reading terminates promptly with "
  "success or a documented error; on well-formed files the reported elements and their contents cover the file exactly, in order and without overlap.",
  ["inputs"], "all byte strings and structured mutations per container", "Termination and accounting over arbitrary input.",
  ["resample/riff.py", "resample/ebml.py", "resample/mov.py", "resample/asf.py", "resample/flac.py", "resample/mp3.py", "resample/stream.py"],
  [("readers", "resample/*.py read/skip_contents/move_to_child"), ("detection", "resample/main.py file_type_info/sample_class_factory")])
p("S13", "Sample names in an SRS never lead outside the output folder",
  "Whatever file name an SRS records (separators, drive letters, parent references, absolute paths, control characters), rebuilding the sample writes nothing outside "
  "the chosen output folder, and neither creates nor alters files elsewhere.",
  ["inputs"], "all recorded names x containers x output options", "Containment must hold for every hostile name.",
  ["resample/srs.py", "resample/main.py"], [("output path", "resample/srs.py main; resample/main.py rebuild_sample")])
p("S14", "The SRS of a music file carries the fingerprint of its music",
  "The SRS of an MP3 or FLAC file records the duration and fingerprint that the fingerprint program gives for the whole file; when it refuses the file, those for the music without tags, "
  "and else those for the music from the last frame start in front of the encoder name. File names with non-ASCII characters give the same result, no temporary file stays behind, the music file is never changed, "
  "and when the program is missing or refuses everything the creation fails and leaves the output folder as it was.",
  ["inputs", "fault_sequences"], "all music files x tags x garbage x file names x what the fingerprint program accepts, how it fails, and whether it can be run",
  "The tests never run the fingerprint program; the fallbacks depend on tag sizes, positions across read blocks and the order of refusals.",
  ["resample/fpcalc.py", "resample/main.py"], [("fingerprint", "resample/fpcalc.py fingerprint"), ("recorded", "resample/main.py flac_profile_sample/mp3_profile_sample, TrackData.serialize_as_fp")])
p("S15", "The srs command writes the file that was asked for, and asks first",
  "Creating an SRS makes exactly one file: the one given with -o, or else one in the -o folder or the current folder that is named after the sample, after its folder (--d), after the folder "
  "above that (--dd), or the latter placed in the folder above the Sample folder (--ddd); rebuilding makes exactly the sample, in the -o folder, which is created when needed, or the current folder. A file that is in the way is "
  "only replaced with -y or after the answer yes; after no, or without an answer, nothing changes. A rebuilt sample with another CRC-32 is reported and only kept with -k, never in place of the "
  "music file it was made from. Contradictory options and unsuitable arguments are refused. In every case all other files stay as they were and no temporary file is left.",
  ["inputs"], "all combinations of options x answers x existing files x path spellings x containers x right and wrong CRC",
  "The tests never run the command line; the options, prompts and existing files combine in too many ways to sample.",
  ["resample/srs.py"], [("command", "resample/srs.py main, can_overwrite"), ("temporary files", "rescene/utility.py create_temp_file_name, replace_result")])
# ------------------------------------------------------------- usenet ----
p("U01", "yEnc articles decode to the original bytes with honest checks",
  "For every payload and every legal yEnc framing (single and multi-part, any line length, escapes and dot-stuffing), decoding returns exactly the "
  "encoded bytes and part metadata, the first lines alone decode to the beginning of the data, and a corrupted or truncated body is reported as an error: "
  "a decode that succeeds never returns other bytes. Damaged headers and arbitrary text are decoded or reported as yEnc errors.",
  ["inputs"], "all payloads x framings x corruptions", "Inverse law over all byte strings.",
  ["usenet/yenc.py"], [("Decoder", "usenet/yenc.py")])
p("U02", "NZB files are read back exactly as written",
  "For every list of posted files (subjects, posters, groups, segments with sizes, numbers and ids, dates), the parsed NZB equals what was written, with all XML escapes, "
  "segment order and encodings, and all parser back ends agree. Documents with raw ampersands, NUL bytes, or a missing or doubled closing tag are repaired on reading; "
  "a document that is cut off is never read as complete by a parser.",
  ["inputs"], "all NZB documents over generated values", "Round trip over unbounded text values.",
  ["usenet/pynzb", "usenet/nzb_utils.py"], [("parsers", "usenet/pynzb/*_nzb.py"), ("helpers", "usenet/nzb_utils.py")])
p("U03", "Random access to a usenet-posted file equals the local file",
  "A file posted as yEnc segments and opened through the news-server layer behaves for every sequence of seeks and reads like the local file, and an SRR "
  "created over that layer holds the same volume metadata and stored files as one created from the local volumes (volumes with standard block types). A segment that is missing or damaged on one server "
  "is taken from another one; when no server has it, that is reported: a file that is not a RAR volume never reads as complete with other bytes, no SRR appears, and the NZB is not moved to the successes.",
  ["histories", "fault_sequences"], "all segmentations x operation sequences x missing/corrupt articles",
  "No test reaches the news layer without a server.",
  ["usenet/srr_usenet.py", "rescene/main.py"], [("NNTPFile", "usenet/srr_usenet.py NNTPFile"), ("create_srr", "usenet/srr_usenet.py create_srr/create_srr_nzbmove"), ("create_srr_fh", "rescene/main.py create_srr_fh")])
p("U04", "The NZB tools lose no posts",
  "Merging the NZBs of each release folder leaves one NZB with exactly the posts of the merged ones; splitting a NZB puts every post that is not reported as failed in exactly one output NZB "
  "(adding to results that exist already); sample extraction writes exactly the posts of the requested sample types within the size limit; renaming NZBs to their subject never loses a file. "
  "All post values (subject, poster, date, groups, segments) survive and other files stay as they were.",
  ["inputs", "histories"], "all sets of NZB files x subject styles x options x repeated runs", "No test runs these tools; loss depends on name collisions and on the order of the posts.",
  ["usenet/nzb_merge.py", "usenet/nzb_split.py", "usenet/nzb_sample_extract.py", "usenet/nzb_rename.py"],
  [("merge", "usenet/nzb_merge.py merge_nzbs"), ("split", "usenet/nzb_split.py main"), ("samples", "usenet/nzb_sample_extract.py extract_sample"), ("rename", "usenet/nzb_rename.py main")])
p("A01", "The release scanner stores the whole release and rebuilds it",
  "Running pyrescene.py on a release directory yields one SRR that contains exactly the files of the release that belong in it, with their bytes and relative paths "
  "(nfo, m3u, cue, log, SFV, proof images and proof RARs, an SRS per sample or music video, the RAR of a fix release), the metadata of every volume of every set in volume order "
  "(subtitle, codec, cover and fix folders and subtitle SFVs aside, unless the release itself is one), the SFVs of the archives last and proof RARs above their SFV, "
  "and from which all volumes and samples rebuild exactly. Site files, transfer logs and unrelated images are left out, as are the files the user wants to skip; the location of the release does not matter; "
  "samples are checked against the main files when asked; releases with compressed archives get an SRR only when asked, and do not hinder others; the release and existing SRRs the user keeps are unchanged and no temporary files stay behind.",
  ["inputs"], "all generated release trees (discs, samples, proofs, several sets, letter case) x options",
  "End-to-end over arbitrary directory layouts; tests cover helper functions only.",
  ["bin/pyrescene.py", "rescene/main.py"], [("generate_srr", "bin/pyrescene.py generate_srr"), ("file selection", "bin/pyrescene.py get_proof_files/get_sample_files/remove_unwanted_sfvs"), ("names", "rescene/utility.py capitalized_fn")])
p("A02", "Music releases get an SRR from which every track rebuilds",
  "Running pyrescene.py on a music release with any number of discs yields an SRR with its nfo files first and the other files sorted by path, holding the playlists, cue sheets, logs, covers and SFVs, "
  "and exactly one SRS per track that matches its own disc's SFV; each SRS rebuilds its track from the same music with other tags. Tracks that do not match the SFV get no SRS and unreadable tracks get the "
  "error text instead; without the fingerprint program no SRR is made and the failure is reported.",
  ["inputs", "fault_sequences"], "all generated music releases x damaged tracks", "No test runs the tool on a music release.",
  ["bin/pyrescene.py", "resample/main.py", "resample/fpcalc.py"], [("music", "bin/pyrescene.py generate_srr"), ("fingerprint", "resample/fpcalc.py")])
p("A03", "Recursive scanning treats every release, and only those, on its own",
  "For every folder tree, listing and recursive scanning find exactly the release folders (an nfo or SFV in the root, or SFVs in disc folders; not packs of releases, disc, sample or category folders), "
  "each complete release gets the SRR it gets on its own, byte for byte, and each incomplete one is reported, gets no SRR and does not affect the others; the exit code tells whether all succeeded.",
  ["inputs", "histories"], "all generated folder trees with complete and incomplete releases", "Cross-release isolation depends on the order and names of neighbouring folders.",
  ["bin/pyrescene.py"], [("scan", "bin/pyrescene.py get_release_directories/is_release"), ("main", "bin/pyrescene.py main")])
p("A05", "retag gives a music release back its files and its tracks",
  "From the SRR of a music release and a folder with its tracks under other tags (in their own folder or in the root, in any capitals), retag.py writes every stored file and every track, byte for byte as the release had them, to the "
  "output folder, which can be the folder of the tracks. A track that is absent, of other music or does not come out right is counted as failed and leaves what was there; existing files are replaced only with consent; no SRS or "
  "temporary file stays behind, a separate input folder never changes, and the exit code is 0 only when no track failed.",
  ["inputs"], "all music releases x tags x places and spellings of the tracks x output folders x answers",
  "Nothing tests the tool; what it must do depends on names, folders, existing files and the state of each track together.",
  ["bin/retag.py", "resample/srs.py"], [("retag", "bin/retag.py fix_tracks, fix_tagging, join_fix_case")])
p("A06", "The collection tools list, move and make exactly what was asked",
  "srr_sort lists exactly the SRRs that have one of the asked characteristics (compressed, empty, images, images without proof, several NFOs, duplicates, no stored files, several archived files, no SFV or NFO, TXT files, repacks, "
  "capitals, group names, dirfixes), gives the total RAR size, and with -o moves exactly those, never over another file. srs_size and srs_bad list exactly the SRS files above a size and the SRRs with unverified samples or sample "
  "problems. srr_extract_srs writes exactly the SRS files of an SRR. srs_batch makes for each video of a tree the SRS the srs tool makes, or a text with the reason, replaces existing ones only when allowed, and never changes its input. "
  "list_crcs lists every archived file of every SRR with its CRC and list_samples every SRR with an SRS. list_compare lists the lines two lists share and those only the second has. A file that cannot be read does not affect what is done for the others.",
  ["inputs"], "all generated folder trees of SRR, SRS and sample files x choices of listings and options",
  "Nothing tests these tools; each listing is a predicate over whole SRR files, and mixes of good and damaged files matter.",
  ["bin/srr_sort.py", "bin/srs_batch.py", "bin/srs_bad.py", "bin/srs_size.py", "bin/srr_extract_srs.py", "scripts/list_crcs.py", "scripts/list_compare.py", "scripts/list_samples.py"],
  [("check", "bin/srr_sort.py check"), ("create_srs", "bin/srs_batch.py create_srs"), ("handle_srr", "bin/srs_bad.py handle_srr"), ("main", "bin/srs_size.py main"), ("main", "bin/srr_extract_srs.py main")])
p("A07", "bitflip repairs a file with one damaged bit, bit pair or byte",
  "Given the CRC-32 a file must have, bitflip.py finds the single flipped bit, or with --bitswitch the two adjacent bits of a byte, or with --byte the one wrong byte, anywhere in the searched range and for every window size, and writes the "
  "original file as <name>.<offset>.fixed. Damage outside of the range or of another kind gives no file, and the damaged file itself is never changed.",
  ["inputs"], "all files x single damages x kinds of search x ranges x window sizes", "The search combines CRCs of precalculated windows; window borders, range ends and file ends matter. Nothing tests it.",
  ["scripts/bitflip.py", "rescene/crc32combine.py"], [("main", "scripts/bitflip.py main, precalculate"), ("crc32_combine_function", "rescene/crc32combine.py crc32_combine_function")])
p("A08", "preprardir makes the folder of RAR programs that rebuilding needs",
  "From a folder with RAR distributions (archives for Linux, BSD and OS X, self-extracting archives for Windows and Linux), preprardir.py writes the RAR program of each one of version 2 or later, without betas unless asked for, byte for byte to "
  "the output folder, under a name with its date and version that a rebuild recognises and tries in the right order. Damaged distributions and those without the program are reported and do not affect the others, files that can't be unpacked "
  "leave nothing behind, other files stay as they are, and the licence file is copied. Without unrar only what doesn't need it is made, and the exit code tells.",
  ["inputs", "fault_sequences"], "all folders of generated distributions x options x presence and exit codes of unrar", "Nothing tests this tool; rebuilding compressed sets depends on the names and programs it makes.",
  ["bin/preprardir.py", "rescene/main.py"], [("extract_rarbin", "bin/preprardir.py extract_rarbin, versiontag, get_rar_date_name, copy_license_file"), ("RarRepository", "rescene/main.py RarRepository, RarExecutable")])
p("A04", "Subtitle archives get SRRs that rebuild every nesting level",
  "For every SFV of subtitle archives, each archive gets an SRR next to (above) its SFV holding its volumes and the SRRs of the archives inside it, to any depth, and the languages of exactly the idx files of that SFV; "
  "rebuilding from the innermost files gives back every archive. Archives that cannot be unpacked get none and leave the rest of the SRR alone. The same holds for --vobsubs.",
  ["inputs", "fault_sequences"], "all generated nestings of subtitle archives x missing or broken volumes", "Recursion over nested archives; no test runs it.",
  ["bin/pyrescene.py"], [("create_srr_for_subs", "bin/pyrescene.py create_srr_for_subs"), ("main", "bin/pyrescene.py main --vobsubs")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
drop = set()
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
