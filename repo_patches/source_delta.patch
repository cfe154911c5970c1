From 2b89e60176ce9c649ee7f37f9d782eb988e231aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 001/140] fix: follow upper case old style RAR volumes (X.RAR,
 X.R00, ...)

On case sensitive file systems next_archive("X.RAR") returned X.r00, so
the remaining volumes were silently left out of the SRR.
---
 rescene/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index a3ee11c..2daae86 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -303,7 +303,8 @@ def next_archive(rfile, is_old=False):
 	if re.match(r".*\.part\d*.rar$", rfile, re.IGNORECASE) and not is_old:
 		return inc(rfile[:-4]) + rfile[-4:]
 	elif re.match(r".*\.rar$", rfile, re.IGNORECASE):
-		return rfile[:-4] + ".r00"
+		# the follow-up volumes of name.RAR are named name.R00, name.R01,...
+		return rfile[:-4] + (".R00" if rfile.endswith(".RAR") else ".r00")
 	elif not is_rar(rfile):
 		raise AttributeError("The extension must be one form a RAR archive.")
 	else:
-- 
2.43.0


From a28318e33bad73bb6f98af7be3b6cb3df336e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 002/140] fix: rebuild volumes at the right position in the
 packed file

Rebuilding a single volume or subset used the offset of the previously
skipped file for every file in the volume, failed on directories, did not
account for gaps between the requested volumes and reported a CRC mismatch
for the last volume of a correct file. A second set that packs a file with
the same name continued reading at the end of that file.
---
 rescene/main.py | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index ecb05fd..d0a0673 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1213,9 +1213,9 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 		RarArguments.mt_settings = rar_mt
 	
 	skip_volume = False # helps to reconstruct a single volume
-	skip_offset = 0
+	packed_name = None  # last packed file encountered, rebuilt or skipped
+	packed_offset = 0   # where the next part of this packed file starts
 	partial_reconstruction = srr_part != "" and srr_part is not None
-	partial_set = False
 	
 	global temp_dir
 	temp_dir = tmp_dir
@@ -1259,7 +1259,6 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				if (srr_part.endswith("*") and
 				    block.file_name.startswith(srr_part[:-1])):
 					skip_volume = False
-					partial_set = True
 
 			# We need to create a RAR file for each SRR block.
 			# Get the stored name and create it.
@@ -1292,15 +1291,18 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				rarfs.write(block.block_bytes())
 				# TODO: !!! not fully copied?
 		elif block.rawtype == BlockType.RarPackedFile:
+			# keep track of offsets in the packed file
+			if (packed_name != block.file_name or
+				not block.flags & block.SPLIT_BEFORE):
+				# other file, or again a file with this name
+				packed_name = block.file_name
+				packed_offset = 0
+				source_name = None
+			block_offset = packed_offset
+			packed_offset += block.packed_size
+
 			if skip_volume:
-				# keep track of offsets in the packed file
-				if source_name != block.file_name:
-					skip_offset = block.packed_size
-				else:
-					skip_offset += block.packed_size
-				
-				source_name = block.file_name
-				running_crc = 0
+				source_name = None
 				continue
 
 			# This is the main RAR block and treat it differently.
@@ -1315,9 +1317,7 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 #			if block.packed_size > 0:
 			# Make sure we have the correct extracted file open. 
 			# If not, attempt to locate and open it.
-			if (source_name != block.file_name
-				or (partial_reconstruction and not partial_set)
-				or (partial_set and source_name != block.file_name)):
+			if source_name != block.file_name:
 				try: srcfs.close()
 				except: pass
 				source_name = block.file_name
@@ -1350,12 +1350,22 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 						srcfs = FakeFile(block.unpacked_size)
 					else:
 						raise
+				assert srcfs
+
+				# previous volumes with a part of this file were skipped
+				if block_offset:
+					if not skip_rar_crc and not block.is_compressed():
+						# the CRC of the last part is the one of the whole file
+						left = block_offset
+						while left > 0:
+							data = srcfs.read(min(left, 0x10000))
+							if not data:
+								break
+							running_crc = zlib.crc32(data, running_crc)
+							left -= len(data)
+					srcfs.seek(block_offset)
 			assert srcfs
 			
-			# make sure the offset is correct
-			if partial_reconstruction and not partial_set:
-				srcfs.seek(skip_offset)
-			
 			# then grab the correct amount of data from the extracted file
 			running_crc = _repack(block, rarfs, in_folder, srcfs, running_crc, 
 			                      skip_rar_crc)
-- 
2.43.0


From fdeaa1289f7f183f936ad374ab672b2810d7b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 003/140] fix: keep the recovery data stored in very old SRR
 files

When the recovery data was not removed from the SRR (flag 0x1 not set), adding,
removing, renaming and merging dropped that data and the rebuilt volumes
missed it. Initialise the attribute that is actually used, too.
---
 rescene/main.py | 1 -
 rescene/rar.py  | 5 +++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index d0a0673..7886813 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1289,7 +1289,6 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 				# The block is from a previous ReScene version (full RR stored)
 				# or is not a recovery record. Just copy it.
 				rarfs.write(block.block_bytes())
-				# TODO: !!! not fully copied?
 		elif block.rawtype == BlockType.RarPackedFile:
 			# keep track of offsets in the packed file
 			if (packed_name != block.file_name or
diff --git a/rescene/rar.py b/rescene/rar.py
index e4136b2..c9ddeb3 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1428,7 +1428,7 @@ class RarReader(object):
 				self._readmode = self.RAR
 			elif block_type == BlockType.SrrHeader: # 0x69
 				self._readmode = self.SRR
-				self.recovery_records_removed = True # init to be sure
+				self.recovery_blocks_removed = True # init to be sure
 			elif enable_sfx: # SFX ?
 				# TODO: make it resceneable
 				# search for RAR marker block offset
@@ -1574,7 +1574,8 @@ class RarReader(object):
 				self.recovery_blocks_removed = (flags & 
 				              SrrRarFileBlock.RECOVERY_BLOCKS_REMOVED)
 			elif is_recovery and not self.recovery_blocks_removed:
-				self._rarstream.seek(add_size, 1)
+				# keep the data with the block so it gets copied too
+				block_buffer += self._rarstream.read(add_size)
 			
 		# If there is additional data in the block, decide whether
 		# we want to include it in the RarBlock we return.
-- 
2.43.0


From 7a02039577989657ec5c78a4783051351493b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 004/140] fix: keep the names of stored files unique and
 relative

Adding or renaming could produce two stored files with one name, of which
only one can be extracted. A file outside the base folder got stored as
../name on Python 3. A single name given to remove_stored_files also
removed files whose name is a part of it.
---
 rescene/main.py | 52 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 7886813..17547a8 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -268,11 +268,24 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 	if rr.file_type() != RarReader.SRR:
 		raise NotSrrFile("Not an SRR file.")
 	
+	in_folder = in_folder if in_folder else os.path.dirname(srr_file)
+
 	if _DEBUG: print("Checking for dupes before adding files.")
+	# names as they will be stored: other paths can lead to the same name
+	found_files = []
+	new_names = []
+	if not usenet:
+		found_files = list(_search(store_files, in_folder))
+		new_names = [_stored_name(f, save_paths, in_folder)
+		             for f in found_files]
+		if len(set(new_names)) != len(new_names):
+			msg = "Two of the files to add would get the same name."
+			_fire(MsgCode.DUPE, message=msg)
+			raise DupeFileName(msg)
 	for block in rr.read_all():
 		if block.rawtype == BlockType.SrrStoredFile:
 			existing = block.os_file_name()
-			if existing in store_files:
+			if existing in store_files or existing in new_names:
 				msg = "There already is a file with the same name stored."
 				_fire(MsgCode.DUPE, message=msg)
 				if usenet:
@@ -286,7 +299,6 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 							 dir=os.path.dirname(srr_file))
 	tmpfile = os.fdopen(tmpfd, "wb")
 
-	in_folder = in_folder if in_folder else os.path.dirname(srr_file)
 	location = False # whether we've added the files or not
 	if _DEBUG: print("Reading blocks for adding files.")
 	try:
@@ -295,11 +307,9 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			if block.rawtype == BlockType.SrrRarFile and not location:
 				location = True
 				if not usenet:
-					amount_added = 0
-					for f in _search(store_files, in_folder):
+					for f in found_files:
 						_store(f, tmpfile, save_paths, in_folder)
-						amount_added += 1
-					if not amount_added:
+					if not found_files:
 						_fire(MsgCode.NO_FILES,
 						      message="No files found to add.")
 				else: #TODO: make it nicer
@@ -315,11 +325,9 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			
 		if not location: # music video SRR file: add to end
 			if not usenet:
-				amount_added = 0
-				for f in _search(store_files, in_folder):
+				for f in found_files:
 					_store(f, tmpfile, save_paths, in_folder)
-					amount_added += 1
-				if not amount_added:
+				if not found_files:
 					_fire(MsgCode.NO_FILES,
 					      message="No files found to add.")
 			else: #TODO: make it nicer
@@ -351,6 +359,9 @@ def remove_stored_files(srr_file, store_files):
 	if rr.file_type() != RarReader.SRR:
 		raise NotSrrFile("Not an SRR file.")
 	
+	if isinstance(store_files, basestring):  # we need a list
+		store_files = [store_files]  # otherwise parts of names match too
+
 	# create a temporarily file
 	tmpfd, tmpname = mkstemp(prefix="remove_", suffix=".srr", 
 							 dir=os.path.dirname(srr_file))
@@ -384,7 +395,8 @@ def rename_stored_file(srr_file, stored_name, new_name):
 	raises ArchiveNotFoundError, 
 	NotSrrFile, 
 	AttributeError (invalid chars),
-	FileNotFound
+	FileNotFound,
+	DupeFileName
 	"""
 	rr = RarReader(srr_file) # ArchiveNotFoundError
 	if rr.file_type() != RarReader.SRR:
@@ -393,6 +405,12 @@ def rename_stored_file(srr_file, stored_name, new_name):
 	for block in rr.read_all():
 		if block.rawtype == BlockType.SrrStoredFile  \
 				and block.file_name == stored_name:
+			if new_name != stored_name and any(
+				b.rawtype == BlockType.SrrStoredFile and
+				b.file_name == new_name for b in rr.read_all()):
+				msg = "There already is a file with the same name stored."
+				_fire(MsgCode.DUPE, message=msg)
+				raise DupeFileName(msg)
 			_fire(MsgCode.RENAME_FILE,
 				  message="Renaming '%s'" % block.file_name)
 			block.renameto(new_name)
@@ -1575,8 +1593,8 @@ def _flag_check_srr(block):
 			  "flag value encountered in SRR file. This file may use features "
 			  "not supported in this version of the application.")
 		
-def _store(sfile, stream, save_paths, in_folder):
-	"""Adds 'file' to the file stream by creating a SrrStoredFileBlock."""
+def _stored_name(sfile, save_paths, in_folder):
+	"""The name (with path) that 'sfile' gets inside the SRR file."""
 	file_name = os.path.basename(sfile)
 	if save_paths:  # AttributeError: 'NoneType' object has no attr...
 		try:
@@ -1589,14 +1607,18 @@ def _store(sfile, stream, save_paths, in_folder):
 			else:
 				raise  # if this ever throws another valid error here
 			
-		if file_name[:2] == b"..":
+		if file_name.split(os.sep)[0] == os.pardir:
 			# sfile and in_folder don't match
 			# (long/short Windows path or totally different locations)
 			# don't store a path for this file!
 			file_name = os.path.basename(sfile)
 			msg = "WARNING: No path stored for file: %s"
 			_fire(MsgCode.MSG, message=msg % fsunicode(file_name))
-	file_name = fsunicode(file_name)
+	return fsunicode(file_name)
+
+def _store(sfile, stream, save_paths, in_folder):
+	"""Adds 'file' to the file stream by creating a SrrStoredFileBlock."""
+	file_name = _stored_name(sfile, save_paths, in_folder)
 	_fire(MsgCode.STORING, message="Storing file: %s" % file_name)
 	
 	block = SrrStoredFileBlock(file_name=file_name, 
-- 
2.43.0


From ca08a98e285e38962a34303e1bd2c874967b47f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 005/140] fix: never leave a gap without an SRR while editing
 stored files

The old file was deleted before the new one took its place, and failures
left temporary files behind.
---
 rescene/main.py    | 24 +++++++++++++-----------
 rescene/rar.py     | 23 +++++++++++++++--------
 rescene/utility.py | 10 ++++++++++
 3 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 17547a8..09d197c 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -58,7 +58,7 @@ from rescene.utility import parse_sfv_file, parse_sfv_data
 from rescene.utility import filter_sfv_duplicates
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
-from rescene.utility import capitalized_fn
+from rescene.utility import capitalized_fn, replace_file
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -333,11 +333,6 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 			else: #TODO: make it nicer
 				for f in store_files:
 					_store_fh(f, tmpfile)	
-	except:
-		tmpfile.close()
-		os.unlink(tmpname)
-		raise
-	else:
 		tmpfile.close()
 #		if not location:
 #			# Bad SRR file or RAR file given.
@@ -345,8 +340,13 @@ def add_stored_files(srr_file, store_files, in_folder="", save_paths=False,
 #			raise NotSrrFile("No SrrRarFile blocks detected. -> Not SRR. "
 #							 "Zero files added.")
 		# original srr file is replaced by the temp file
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
+	except:
+		try:
+			tmpfile.close()
+		finally:
+			os.unlink(tmpname)
+		raise
 
 def remove_stored_files(srr_file, store_files):
 	"""Remove files stored inside a SRR file.
@@ -379,11 +379,13 @@ def remove_stored_files(srr_file, store_files):
 			else: # TODO: write better tests here!!
 				tmpfile.write(block.block_bytes())
 		tmpfile.close()
-		os.remove(srr_file)
-		os.rename(tmpname, srr_file)
+		replace_file(tmpname, srr_file)
 	except BaseException as ex:
 		print(ex)
-		os.unlink(tmpname)
+		try:
+			tmpfile.close()
+		finally:
+			os.unlink(tmpname)
 		raise
 
 def rename_stored_file(srr_file, stored_name, new_name):
diff --git a/rescene/rar.py b/rescene/rar.py
index c9ddeb3..d7b3358 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -669,15 +669,22 @@ class SrrStoredFileBlock(_SrrFileNameBlock):
 		                                  dir=os.path.dirname(self.fname))
 		tmpfile = os.fdopen(tmpfd, "wb")
 		
-		with open(self.fname, "rb") as f:
-			tmpfile.write(f.read(self.block_position)) # previous block data
-			tmpfile.write(self.block_bytes()) # new block header
-			f.seek(old_file_offset) # go to beginning stored file
-			tmpfile.write(f.read()) # read all data until EOF
+		try:
+			with open(self.fname, "rb") as f:
+				# previous block data
+				tmpfile.write(f.read(self.block_position))
+				tmpfile.write(self.block_bytes()) # new block header
+				f.seek(old_file_offset) # go to beginning stored file
+				tmpfile.write(f.read()) # read all data until EOF
 			
-		tmpfile.close() 
-		os.remove(self.fname)
-		os.rename(tmpname, self.fname)
+			tmpfile.close()
+			utility.replace_file(tmpname, self.fname)
+		except:
+			try:
+				tmpfile.close()
+			finally:
+				os.unlink(tmpname)
+			raise
 
 	def explain(self):
 		out = super(SrrStoredFileBlock, self).explain()
diff --git a/rescene/utility.py b/rescene/utility.py
index 2daae86..42aa310 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -449,6 +449,16 @@ def remove_folder(path):
 	except OSError:
 		os.rmdir("\\\\?\\" + path)
 
+def replace_file(src, dest):
+	"""Moves src over the existing file dest. There is no moment without
+	a complete file at dest when the platform supports it."""
+	if hasattr(os, "replace"):  # Python 3.3+
+		os.replace(src, dest)
+	else:
+		if os.name == "nt":  # can't rename to an existing file
+			os.remove(dest)
+		os.rename(src, dest)
+
 def create_temp_file_name(output_file):
 	"""Creates file name for the temporary file based on the name of the
 	output file to create/overwrite later.
-- 
2.43.0


From 25aa6f99970f566a26109882bbb59cb50299e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 006/140] fix: print full names of extracted files for any
 output folder notation

A trailing slash or ./ in the output folder cut off the start of the names.
---
 rescene/srr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index f759ef6..a73a426 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -242,7 +242,7 @@ def manage_srr(options, in_folder, infiles, working_dir):
 
 		# show which files are extracted + success or not
 		for efile, success in files:
-			file_name = efile[len(out_folder) + 1:]
+			file_name = os.path.relpath(efile, out_folder)
 			if success:
 				print("{0}: extracted.".format(file_name))
 			else:
@@ -276,7 +276,7 @@ def manage_srr(options, in_folder, infiles, working_dir):
 
 		# show which files are extracted + success or not
 		for efile, success in files:
-			file_name = efile[len(out_folder) + 1:]
+			file_name = os.path.relpath(efile, out_folder)
 			if success:
 				print("{0}: extracted.".format(file_name))
 			else:
-- 
2.43.0


From 9fbff12044874ed6e91b6d7da324ab530aa4ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 007/140] fix: refuse a volume without a name instead of
 crashing

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 09d197c..4437774 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1221,7 +1221,7 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 	srr_part: string with volume(s) to reconstruct
 	rar_mt: object with settings for the rar -mt parameter
 	"""
-	rar_name = ""
+	rar_name = None
 	ofile = ""
 	source_name = None
 	rarfs = None # RAR Volume that is being reconstructed
-- 
2.43.0


From 68748badc91a2fa8ca2e60005fa46387a211d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 008/140] fix: decode RAR file names that are stored as UTF-8
 only

---
 rescene/rar.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index d7b3358..9129934 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1055,9 +1055,15 @@ class RarPackedFileBlock(RarBlock): # 0x74
 		self._p += filename_length
 		if self.flags & RarPackedFileBlock.UTF8_FILE_NAME:
 			null = self.file_name.find(ZERO) # index zero byte
-			self.orig_filename = self.file_name[:null]
-			u = UnicodeFilename(self.orig_filename, self.file_name[null + 1:])
-			self.unicode_filename = u.decode()
+			if null < 0: # no separate Unicode name: it is UTF-8
+				self.orig_filename = self.file_name
+				self.unicode_filename = self.file_name.decode("utf-8",
+				                                              "replace")
+			else:
+				self.orig_filename = self.file_name[:null]
+				u = UnicodeFilename(self.orig_filename,
+				                    self.file_name[null + 1:])
+				self.unicode_filename = u.decode()
 		else:
 			self.orig_filename = self.file_name
 			self.unicode_filename = self.file_name.decode(DEFAULT_CHARSET, 
-- 
2.43.0


From 0ce2e080fdf6afadcab658ad6828c90b04ee5671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 009/140] fix: show details of blocks with a salt or unknown OS
 or method

---
 rescene/rar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 9129934..060ad5a 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1103,7 +1103,7 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			out += "+HIGH_UNP_SIZE: %i\n" % self.high_unpack_size
 		out += "+FILE_NAME: %s\n" % self.file_name
 		if self.flags & self.SALT:
-			out += "+SALT: %X\n" % self.salt
+			out += "+SALT: %s\n" % hexlify(self.salt).decode('ascii').upper()
 		if self.flags & self.EXT_TIME:
 			out += "+modification time: %s\n" % self.ftime(self.mtime)
 			out += "+creation time: %s\n" % self.ftime(self.ctime)
@@ -1119,7 +1119,8 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			return "%04d-%02d-%02d %02d:%02d:%02d" % timetuple
 
 	def get_compression_name(self):
-		return COMPRESSION_NAME[self.compression_method]
+		return COMPRESSION_NAME.get(self.compression_method, 
+			"Unknown compression method 0x%02X" % self.compression_method)
 	
 	def is_compressed(self):
 		return self.compression_method != 0x30 # Storing
@@ -1162,7 +1163,8 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			return ""
 	
 	def get_os(self):
-		return "%s used to create this file block." % OS_NAME[self.os]
+		return "%s used to create this file block." % OS_NAME.get(self.os,
+			"Unknown OS (%d)" % self.os)
 	
 	def get_dictionary(self):
 		return DICTIONARY_NAME[(self.flags & 0x00e0) >> 5]
-- 
2.43.0


From e3530ea8652fd00b715508a2e1cca7383e0f315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 010/140] fix: read the same RAR blocks when iterating again

---
 rescene/rar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/rar.py b/rescene/rar.py
index 060ad5a..f522322 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1639,6 +1639,7 @@ class RarReader(object):
 			return self._found_blocks 
 		except AttributeError:
 			self._rarstream.seek(self._initial_offset)
+			self._rar_end_block_encountered = False
 			self._found_blocks = []
 			for block in self:
 #				print(block)
@@ -1682,6 +1683,7 @@ class RarReader(object):
 			raise
 		if not block:
 			self._rarstream.seek(self._initial_offset)
+			self._rar_end_block_encountered = False
 			raise StopIteration
 		return block
 	
-- 
2.43.0


From 86ba2a38913dcc6ca23e2964111b6edc117fdc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 011/140] fix: do not list comments and recovery records as
 archived files

---
 rescene/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index f522322..ec4726f 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1658,7 +1658,7 @@ class RarReader(object):
 		
 		if self._readmode in (self.RAR, self.SFX):
 			files = [b.file_name for b in self._found_blocks
-			                     if isinstance(b, RarPackedFileBlock)]
+			                     if b.rawtype == BlockType.RarPackedFile]
 		else:
 			files = [b.file_name for b in self._found_blocks
 			                     if isinstance(b, SrrStoredFileBlock)]
-- 
2.43.0


From aa52bf09c5a39928344f7d1bc3ec938f30a7774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 012/140] fix: report the real problem when a local RAR volume
 is damaged

---
 rescene/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index 4437774..bd326ef 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -684,6 +684,9 @@ def _rarreader_usenet(rarfile, read_retries=7):
 			import traceback
 			traceback.print_exc()
 		
+		if not hasattr(rarfile, "init_data"):
+			raise # a local file: reading it again will not help
+
 		# reading from usenet fails somewhere
 		# keep redownloading
 		stop = 0
-- 
2.43.0


From ee695c59a1f6fddbc5e10dea7a3ac312c98fcd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 013/140] fix: reject blocks that are too short for their
 fields

---
 rescene/rar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/rar.py b/rescene/rar.py
index ec4726f..23f7265 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1681,6 +1681,9 @@ class RarReader(object):
 		except EnvironmentError: # corrupt file found
 			self._rarstream.close() # so it's possible to move the bad file
 			raise
+		except (struct.error, IndexError) as err: # too short for its fields
+			self._rarstream.close()
+			raise EnvironmentError("Corrupt RAR block: %s" % err)
 		if not block:
 			self._rarstream.seek(self._initial_offset)
 			self._rar_end_block_encountered = False
-- 
2.43.0


From da7f78864c291bbda0b5e3bd1fe1152cc9303b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 014/140] fix: show details of RAR files with padding

---
 rescene/rar.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 23f7265..ec94e70 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -838,7 +838,7 @@ class SrrRarPaddingBlock(RarBlock):
 	HL:     Header Length (2 bytes)
 	        Always 7 + 4 = 11 bytes.
 	"""
-	def __init__(self, bbytes=None, filepos=None, fname=None,
+	def __init__(self, bbytes=None, filepos=0, fname=None,
 				padding_bytes=None):
 		if bbytes != None:
 			super(SrrRarPaddingBlock, self).__init__(bbytes, filepos, fname)
@@ -852,7 +852,10 @@ class SrrRarPaddingBlock(RarBlock):
 			self.rawtype = 0x6C
 			self.flags = self.LONG_BLOCK
 			self.padding_size = len(padding_bytes)
+			self.add_size = self.padding_size
 			self.header_size = HEADER_LENGTH + 4
+			self.block_position = filepos
+			self.fname = fname
 			
 			self._write_header(self.header_size)
 			self._rawdata += struct.pack("<I", self.padding_size) # 4 bytes
@@ -1509,7 +1512,9 @@ class RarReader(object):
 		#   error: unpack requires a string argument of length 7
 		if block_start_position + HEADER_LENGTH > self._file_length:
 			if self._rar_end_block_encountered and self._readmode == self.RAR:
-				return SrrRarPaddingBlock(padding_bytes=self._rarstream.read())
+				return SrrRarPaddingBlock(filepos=block_start_position,
+					fname=self._rarstream.name,
+					padding_bytes=self._rarstream.read())
 			else:
 				raise EnvironmentError("Cannot read basic block header.")
 
@@ -1536,7 +1541,8 @@ class RarReader(object):
 		
 		# detect padding bytes
 		if self._rar_end_block_encountered and self._readmode == self.RAR:
-			return SrrRarPaddingBlock(
+			return SrrRarPaddingBlock(filepos=block_start_position,
+				fname=self._rarstream.name,
 				padding_bytes=header_buffer + self._rarstream.read())
 		if btype == BlockType.RarMax:
 			self._rar_end_block_encountered = True
-- 
2.43.0


From edee80f2616e500d4f5943a77da97d5fd512d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 015/140] fix: refuse RAR blocks without a volume on rebuild

---
 rescene/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index bd326ef..aeed080 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1305,6 +1305,9 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 					_fire(MsgCode.USER_ABORTED,
 						message="Operation aborted. Archive already exists.")
 					return -1
+		elif (BlockType.RarMin <= block.rawtype <= BlockType.RarMax and
+			not rarfs and not skip_volume):
+			raise ValueError("RAR block found before the first RAR volume.")
 		elif _is_recovery(block) and not skip_volume:
 			if block.recovery_sectors > 0 and rebuild_recovery:
 				_write_recovery_record(block, rarfs)
-- 
2.43.0


From ba4586f6f7dff830485a63d28a3765483fba3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 016/140] fix: refuse recovery records that do not fit the
 volume

---
 rescene/main.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index aeed080..027ed9d 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1445,15 +1445,20 @@ def _write_recovery_record(block, rarfs):
 		  recovery_sectors=block.recovery_sectors,
 		  protected_sectors=block.data_sectors)
 
-	rs_slice = 0
-	current_sector = 0	
-	crc = [0] * (protected_sectors * 2)
-	rs = [0] * recovery_sectors # [0, 0, ..., 0]
-
 	rarfs.seek(0, os.SEEK_END) # move relative to end of file
 	rar_length = rarfs.tell()
 	assert rar_length != 0 # you can't calculate stuff on nothing
 	rarfs.seek(0)
+
+	# the maximum number of recovery sectors RAR can create is 524288
+	if (protected_sectors != (rar_length + 511) // 512 or
+		recovery_sectors > 524288):
+		raise ValueError("The recovery record does not fit the RAR volume.")
+
+	rs_slice = 0
+	current_sector = 0	
+	crc = [0] * (protected_sectors * 2)
+	rs = [0] * recovery_sectors # [0, 0, ..., 0]
 	
 	count = 0
 	while count < rar_length:
-- 
2.43.0


From 8644840c288f002b804be65ff46d6e043c5914ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 017/140] fix: refuse RAR padding without a volume on rebuild

---
 rescene/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 027ed9d..b2314ac 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1305,8 +1305,9 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 					_fire(MsgCode.USER_ABORTED,
 						message="Operation aborted. Archive already exists.")
 					return -1
-		elif (BlockType.RarMin <= block.rawtype <= BlockType.RarMax and
-			not rarfs and not skip_volume):
+		elif (not rarfs and not skip_volume and
+			(BlockType.RarMin <= block.rawtype <= BlockType.RarMax or
+			block.rawtype in (0x00, BlockType.SrrRarPadding))):
 			raise ValueError("RAR block found before the first RAR volume.")
 		elif _is_recovery(block) and not skip_volume:
 			if block.recovery_sectors > 0 and rebuild_recovery:
-- 
2.43.0


From 7baa56d59f5dc8def2f35fe0c0f01298b3068e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 018/140] fix: reject blocks that consist of a basic header
 only

---
 rescene/rar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rescene/rar.py b/rescene/rar.py
index ec94e70..e0dd6f9 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1558,6 +1558,10 @@ class RarReader(object):
 			if btype == BlockType.SrrHeader: # minimal block in C implementation
 				return SrrHeaderBlock(header_buffer, block_start_position, 
 									  self._rarstream) 
+			if (BTYPES_CLASSES.get(btype, RarBlock) not in
+				(RarBlock, RarEndArchiveBlock)):
+				raise EnvironmentError("RAR block without its fields"
+					" at offset {0:#x}".format(block_start_position))
 			if _DEBUG:
 				assert btype == BlockType.RarMin or btype == BlockType.RarMax
 			return RarBlock(header_buffer, block_start_position, 
-- 
2.43.0


From dc28169c776eb2fb0198f8b43579bc1b5c824a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 019/140] fix: merge SRR files without a header block

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index b2314ac..fd57b1f 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -457,7 +457,7 @@ def merge_srrs(srr_files, output_file, application_name=None):
 			
 	# write the gathered data in the correct order
 	with open(output_file, "wb") as new:
-		new.write(SrrHeaderBlock(appname=application_name).block_bytes())
+		new.write(SrrHeaderBlock(appname=application_name or "").block_bytes())
 		
 		# all stored files in the beginning after the header
 		for sblock in stored_files:
-- 
2.43.0


From 082ac709a8d016496d82bc5fcaac268c8774b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 020/140] fix: report unknown compression methods on rebuild

---
 rescene/rar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index e0dd6f9..0f87fb7 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1141,7 +1141,11 @@ class RarPackedFileBlock(RarBlock): # 0x74
 			0x34: "-m4",
 			0x35: "-m5"
 		}
-		return compression_parameter[self.compression_method]
+		try:
+			return compression_parameter[self.compression_method]
+		except KeyError:
+			raise ValueError("Unknown compression method: 0x%x" %
+			                 self.compression_method)
 	
 	def get_dictionary_size_parameter(self):
 		"""
-- 
2.43.0


From 38cce6732e8e7ab131b2f347cd2f68c29305d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 021/140] fix: refuse to hash incomplete file data

---
 rescene/osohash.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/osohash.py b/rescene/osohash.py
index 2828f86..67fa170 100644
--- a/rescene/osohash.py
+++ b/rescene/osohash.py
@@ -91,6 +91,8 @@ def _osorg_hash(stream):
 	buffer_begin = stream.read(HASH_CHUNK_SIZE)
 	stream.seek(-HASH_CHUNK_SIZE, 2)
 	buffer_end = stream.read(HASH_CHUNK_SIZE)
+	if len(buffer_begin) + len(buffer_end) != 2 * HASH_CHUNK_SIZE:
+		raise ValueError("The file data is not complete.")
 	bytesize = struct.calcsize("Q")  # unsigned long long
 	for index in range(0, HASH_CHUNK_SIZE, bytesize):
 		srr_hash += struct.unpack_from("<Q", buffer_begin, index)[0]
-- 
2.43.0


From b74d1fe489e45bb829128df16cc5161da07debe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 022/140] fix: report the size of volumes with large or
 unflagged blocks

---
 rescene/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index fd57b1f..21f32b7 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1080,8 +1080,6 @@ def info(srr_file):
 					recovery.file_size = 0
 				recovery.file_size += (512 * block.recovery_sectors +
 				                      2 * block.data_sectors)
-				assert block.add_size ==  \
-					(512 * block.recovery_sectors + 2 * block.data_sectors)
 			elif block.file_name == "CMT":
 				# The comments themselves are stored after being 
 				# compressed with the RAR algorithm. We cannot easily read
@@ -1132,7 +1130,10 @@ def info(srr_file):
 				# CREEPSHOW uses padding in their volumes
 				if block.rawtype != BlockType.SrrRarPadding:
 					current_rar.file_size += block.header_size
-				current_rar.file_size += block.add_size
+				# packed_size: the full size, also for blocks larger than 4 GiB
+				# or without the long block flag
+				current_rar.file_size += getattr(block, "packed_size",
+				                                 block.add_size)
 			current_rar.offset_end_rar = (block.block_position + 
 										  block.header_size)
 			rar_files[current_rar.key] = current_rar	
-- 
2.43.0


From 0f114ab5ffc45df632a157ffd3af86c8d07a8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 023/140] fix: open the first file of the whole RAR set

Without a file name, each volume contributed its own first file, so the
stream was a mix of different files.
---
 rescene/rarstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index 0d8611b..a88cdfc 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -79,6 +79,8 @@ class RarStream(io.IOBase):
 		rar_file = first_rar
 		while os.path.isfile(rar_file):
 			is_old = self._process(rar_file, packed_file_name, compressed)
+			# the first file of the set, not of each volume
+			packed_file_name = self.packed_file_name
 			rar_file = utility.next_archive(rar_file, is_old)
 
 		try:
-- 
2.43.0


From a2d87e21e9105c47c881965e6d9a8cbe32d23f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 024/140] fix: record ISDb hashes when the SFV has other
 capitals than the volumes

The name from the SFV was opened instead of the file on disk.
---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 21f32b7..2dca246 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -574,7 +574,7 @@ def create_srr(srr_name, infiles, in_folder="",
 							           "compression method: %s" % rarfile)
 					else:
 						# store first RAR where we encounter the stored file
-						oso_dict.setdefault(block.os_file_name(), rarfile)
+						oso_dict.setdefault(block.os_file_name(), rfexact)
 				elif _is_recovery(block):
 					_fire(MsgCode.RBLOCK, message="RAR Recovery Block",
 						  packed_size=block.packed_size,
-- 
2.43.0


From 495efd0eaf0673264b805a1d56626bc2e6828671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 025/140] fix: do not hash a packed file of an incomplete RAR
 set

The hash and size of the volumes that were found got recorded as those
of the file.
---
 rescene/osohash.py   | 8 +++++++-
 rescene/rarstream.py | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/rescene/osohash.py b/rescene/osohash.py
index 67fa170..91fd7d7 100644
--- a/rescene/osohash.py
+++ b/rescene/osohash.py
@@ -53,7 +53,13 @@ def osohash_from(rar_archive, enclosed_file=None, middle=False):
 	on the first file in the archive(s). To get a list of the files inside the
 	archive, use RarReader.list_files().
 	middle: not the first RAR archive from the set is expected in the stream"""
-	return _osorg_hash(RarStream(rar_archive, enclosed_file, middle))
+	stream = RarStream(rar_archive, enclosed_file, middle)
+	try:
+		if not stream.is_complete():
+			raise ValueError("The RAR set is not complete.")
+		return _osorg_hash(stream)
+	finally:
+		stream.close()
 	# TODO: return dict with srr_hash for each file in the archive
 	# or list with tuples (path, filename, srr_hash)
 
diff --git a/rescene/rarstream.py b/rescene/rarstream.py
index a88cdfc..7884e2f 100644
--- a/rescene/rarstream.py
+++ b/rescene/rarstream.py
@@ -125,10 +125,15 @@ class RarStream(io.IOBase):
 
 					self._rar_volumes.append(cvol)
 					self._packed_file_length += block.packed_size
+					self._unpacked_size = block.unpacked_size
 		reader.close()
 		self.packed_file_name = packed_file_name
 		return is_old_style_naming
 
+	def is_complete(self):
+		"""False when volumes at the end of the set were not found."""
+		return self._packed_file_length >= self._unpacked_size
+
 	def length(self):
 		"""Length of the packed file being accessed."""
 		return self._packed_file_length
-- 
2.43.0


From 5ae11d346eff2135ced1873bf8edf5b72b9c2fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 026/140] fix: do not alter names or accept nameless lines when
 parsing SFV files

Leading and trailing latin-1 characters such as \x85 and \xa0 (used for
letters by DOS code pages) were removed from names and checksums.
---
 rescene/utility.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 42aa310..7ed2a1c 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -234,11 +234,15 @@ def parse_sfv_data(file_data):
 				text = line.decode("latin-1")
 				text = text.replace("\t", "    ")  # convert tabs
 				index = text.rindex(" ")  # ValueError: substring not found
-				filename = text[:index].strip()
 				# A SFV can contain multiple white spaces
-				crc = text[index + 1:].lstrip()
+				# other white space characters of latin-1 are part of the name
+				filename = text[:index].strip(" ")
+				crc = text[index + 1:]
 				# ValueError: bad CRC e.g. char > F
-				entries.append(SfvEntry(filename, crc))
+				entry = SfvEntry(filename, crc)
+				if not entry.file_name:
+					raise ValueError("No file name.")
+				entries.append(entry)
 			except ValueError:
 				line = line.decode("latin-1", "replace")
 				errors.append(line)
-- 
2.43.0


From 7628d8583d16cbd0f20d59af485ff49d6c417c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 027/140] fix: sort SFV entries without regard to capitals

Volumes of a set could end up in the wrong order (name.R01 before
name.r00), duplicates differing in capitals were kept and the result
depended on the order of the lines.
---
 rescene/utility.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index 7ed2a1c..a898d3e 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -168,23 +168,15 @@ class SfvEntry(object):
 	def __lt__(self, other):
 		"""The sort routines are guaranteed to use __lt__ when making 
 		   comparisons between two objects."""
-		ext_self = self.file_name[-4:].lower()
-		ext_other = other.file_name[-4:].lower()
-		same_base = self.file_name[:-4].lower() == other.file_name[:-4].lower()
-
-		if same_base and ext_self != ext_other:
-			if ext_self == ".rar":
-				if bool(re.match(r"\.[r-z]\d{2}$", ext_other)):
-					return True
-				else:
-					return self.file_name < other.file_name  # .rar < .r00
-			elif ext_other == ".rar":
-				if bool(re.match(r"\.[r-z]\d{2}$", ext_self)):
-					return False
-				else:
-					return self.file_name < other.file_name  # .r00 > .rar
-		# .part1.rar < .part2.rar, r99 < s00, 001 < 002
-		return self.file_name < other.file_name
+		# .rar < .r00, .part1.rar < .part2.rar, r99 < s00, 001 < 002
+		return self._sort_key() < other._sort_key()
+
+	def _sort_key(self):
+		"""Capitals do not matter. The first volume comes before .r00"""
+		name = self.file_name.lower()
+		if name.endswith(".rar"):
+			name = name[:-len("ar")] + "/"  # the character before 0
+		return name
 
 	def __repr__(self):
 		return self.file_name + " " + self.crc32
-- 
2.43.0


From c70dbb5a5dc337c1a3dbff68aff876409bddeac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 028/140] fix: declare the C types of zlib's crc32_combine

The result was negative for half of the values and lengths of 2 GiB and
more were cut off.
---
 rescene/crc32combine.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rescene/crc32combine.py b/rescene/crc32combine.py
index 1405519..fc85195 100644
--- a/rescene/crc32combine.py
+++ b/rescene/crc32combine.py
@@ -37,6 +37,15 @@ except ImportError:
 	# not used within rescene, but the scripts
 	_DEBUG = True
 
+def load_crc32_combine(libpath):
+	"""The C types are not int: results are unsigned and
+	lengths can be larger than 2 GiB."""
+	zlib = ctypes.cdll.LoadLibrary(libpath)
+	zlib.crc32_combine.argtypes = [
+		ctypes.c_ulong, ctypes.c_ulong, ctypes.c_long]
+	zlib.crc32_combine.restype = ctypes.c_ulong
+	return zlib.crc32_combine
+
 def crc32_combine_function():
 	"""Returns function to zlib when possible.
 	Fallback to Python implementation."""
@@ -55,8 +64,7 @@ def crc32_combine_function():
 		if _DEBUG:
 			print(libpath)
 		try:
-			zlib = ctypes.cdll.LoadLibrary(libpath)
-			return zlib.crc32_combine
+			return load_crc32_combine(libpath)
 		except OSError:
 			# OSError: [WinError 193] %1 is not a valid Win32 application
 			# on C:\Program Files\Intel\WiFi\bin\zlib1.dll
@@ -76,8 +84,7 @@ def crc32_combine_ctypes(crc1, crc2, len2):
 		libpath = util.find_library('z')
 
 	if libpath:
-		zlib = ctypes.cdll.LoadLibrary(libpath)
-		return zlib.crc32_combine(crc1, crc2, len2)
+		return load_crc32_combine(libpath)(crc1, crc2, len2)
 	else:
 		raise RuntimeError("zlib not found")
 
-- 
2.43.0


From 11e963f7fc4d538207f9a6d861ea6cc380e2b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 029/140] fix: detect .000 volumes of several sets in any order

The list was changed while iterating over it, so sets were skipped.
---
 rescene/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index a898d3e..05306a6 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -339,7 +339,7 @@ def first_rars(file_iter):
 
 	firsts = list(filter(is_first, input_files))
 	# .000? then no .001
-	for first in filter(lambda x: x.endswith(".000"), firsts):
+	for first in list(filter(lambda x: x.endswith(".000"), firsts)):
 		try:
 			firsts.remove(first[:-1] + "1")
 		except ValueError:
-- 
2.43.0


From cc35a6069eef58dbb340db4c8c5d552472091859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 030/140] fix: refuse later volumes with new style names as the
 first one

A single name.part2.rar was accepted and an SRR without the first
volumes created, instead of the documented ValueError.
---
 rescene/main.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 2dca246..cf67611 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -952,6 +952,7 @@ def _handle_rar(rfile, filelist=None, read_retries=7):
 			return robject
 		
 	is_old_style_naming = False
+	is_new_style_naming = False
 	
 	# RarReader(rfile) closes the file -> was problem with NNTPFiles
 	for block in _rarreader_usenet(rfile, read_retries):
@@ -971,8 +972,13 @@ def _handle_rar(rfile, filelist=None, read_retries=7):
 			#	raise ValueError("You must start with the first volume "
 			#	                 "from a RAR set.")
 			is_old_style_naming = not bool(block.flags & block.NEW_NUMBERING) 
+			is_new_style_naming = not is_old_style_naming
 			
-	if first_rars([filename(rfile)]) != [filename(rfile)]:
+	if (first_rars([filename(rfile)]) != [filename(rfile)] or
+		# a single .part2.rar is only a first volume with old style naming
+		(is_new_style_naming and re.match(r".*\.part\d*[1-9]\d*\.rar$",
+			filename(rfile), re.I) and not re.match(r".*\.part0*1\.rar$", 
+			filename(rfile), re.I))):
 		raise ValueError("You must start with the first volume from a RAR set.")
 			
 	next_file = filename(rfile)
-- 
2.43.0


From efddb02f3b4655c3569a7c61a5c4dcb94397658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 031/140] fix: merge SRR files into one of the given files

---
 rescene/main.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index cf67611..89438b6 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -58,7 +58,8 @@ from rescene.utility import parse_sfv_file, parse_sfv_data
 from rescene.utility import filter_sfv_duplicates
 from rescene.utility import basestring, fsunicode
 from rescene.utility import decodetext, encodeerrors
-from rescene.utility import capitalized_fn, replace_file
+from rescene.utility import (capitalized_fn, replace_file,
+                             create_temp_file_name)
 from rescene.osohash import osohash_from
 from rescene.utility import FileType
 
@@ -455,19 +456,28 @@ def merge_srrs(srr_files, output_file, application_name=None):
 			else:
 				other_blocks.append(block)
 			
-	# write the gathered data in the correct order
-	with open(output_file, "wb") as new:
-		new.write(SrrHeaderBlock(appname=application_name or "").block_bytes())
-		
-		# all stored files in the beginning after the header
-		for sblock in stored_files:
-			new.write(sblock.block_bytes())
-			new.write(sblock.srr_data())
-		
-		# everything else in the same order as the original file
-		for block in other_blocks:
-			new.write(block.block_bytes())
-			#TODO: this is skipping data in some less common cases?
+	# the output file can be one of the SRR files that is still being read
+	tmpname = create_temp_file_name(os.path.abspath(output_file))
+	try:
+		# write the gathered data in the correct order
+		with open(tmpname, "wb") as new:
+			new.write(SrrHeaderBlock(
+				appname=application_name or "").block_bytes())
+			
+			# all stored files in the beginning after the header
+			for sblock in stored_files:
+				new.write(sblock.block_bytes())
+				new.write(sblock.srr_data())
+			
+			# everything else in the same order as the original file
+			for block in other_blocks:
+				new.write(block.block_bytes())
+				#TODO: this is skipping data in some less common cases?
+		replace_file(tmpname, output_file)
+	except BaseException:
+		if os.path.exists(tmpname):
+			os.unlink(tmpname)
+		raise
 
 def create_srr(srr_name, infiles, in_folder="",
                store_files=None, save_paths=False, compressed=False,
-- 
2.43.0


From 22726a23fac2855618bab432af0ffb381f3c44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 032/140] fix: verify files with CRC zero and report
 directories as missing

---
 rescene/srr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index a73a426..f6daa53 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -166,9 +166,9 @@ def verify_extracted_files(srr, in_folder, auto_locate):
 		if os.sep == '/':
 			afile.file_name = afile.file_name.replace('\\', '/')
 		# skip the directories and empty files
-		if afile.crc32 != "00000000" and afile.crc32 != "0":
+		if afile.file_size or afile.crc32 not in ("00000000", "0"):
 			name = os.path.join(in_folder, afile.file_name)
-			if not os.path.exists(name):
+			if not os.path.isfile(name):
 				if not auto_locate:
 					print("File %s not found. Skipping." % afile.file_name)
 					status = 2
-- 
2.43.0


From e4b61f9239da8f9a1b7ba4c9444aed9afe2fc556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 033/140] fix: no partial SRR after failed creation and keep
 the existing one

---
 bin/pyrescene.py |  4 ++--
 rescene/main.py  | 33 ++++++++++++++++++++-------------
 rescene/srr.py   |  4 ++--
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 0ccdae5..ec0efd2 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -902,9 +902,9 @@ def generate_srr(reldir, working_dir, options, mthread):
 			except OSError:
 				pass
 			return False
-		except KeyboardInterrupt as e:
+		except KeyboardInterrupt:
 			# always deletes the temp file here
-			if e.message != "DONT_DELETE":
+			if os.path.exists(tmp_srr_name):
 				os.unlink(tmp_srr_name)
 			raise
 		except FileNotFound as e:
diff --git a/rescene/main.py b/rescene/main.py
index 89438b6..43a5db3 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -505,8 +505,8 @@ def create_srr(srr_name, infiles, in_folder="",
 	try:
 		if not tmp_srr_name:
 			tmp_srr_name = srr_name
-		if store_files is None:      # no default initialization with []
-			store_files = []
+		# a copy: the list of the caller must not change
+		store_files = list(store_files or [])
 		if not isinstance(infiles, (list, tuple)):  # we need a list
 			infiles = [infiles]      # otherwise iterating over characters
 			
@@ -553,8 +553,6 @@ def create_srr(srr_name, infiles, in_folder="",
 				# all lower in sfv and casings in RAR file names
 				msg = "Referenced file not found: %s" % rfexact
 				_fire(code=MsgCode.FILE_NOT_FOUND, message=msg)
-				srr.close()	  
-				os.unlink(tmp_srr_name)
 				raise FileNotFound(msg)
 	
 			fname = os.path.relpath(rfcapitals, in_folder) if save_paths  \
@@ -578,8 +576,6 @@ def create_srr(srr_name, infiles, in_folder="",
 						_fire(MsgCode.COMPRESSION, 
 						      message="Don't delete 'em yet!")
 						if not compressed:
-							srr.close()
-							os.unlink(tmp_srr_name)
 							raise ValueError("Archive uses unsupported "
 							           "compression method: %s" % rarfile)
 					else:
@@ -610,10 +606,21 @@ def create_srr(srr_name, infiles, in_folder="",
 					srr.write(block.block_bytes())	
 				except (ValueError, AttributeError):
 					pass # file is too small or compressed RARs
+		srr.close()
 		return True
-	finally:
-		# when an IOError is raised, we close the file for further cleanup
+	except BaseException:
+		# don't leave a partially finished file
+		_remove_failed(srr, tmp_srr_name)
+		raise
+
+def _remove_failed(srr, srr_name):
+	"""Removes the SRR file that is being written."""
+	try:
 		srr.close()
+	except EnvironmentError:
+		pass  # e.g. the disk is full
+	if os.path.isfile(srr_name):
+		os.unlink(srr_name)
 		
 def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 	"""
@@ -649,8 +656,6 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			# all lower in sfv and casings in RAR file names
 			msg = "Referenced file not found: %s" % infile
 			_fire(code=MsgCode.FILE_NOT_FOUND, message=msg)
-			srr.close()
-			os.unlink(tmp_srr_name)
 			raise FileNotFound(msg)
 		base = os.path.basename(infile)
 
@@ -664,10 +669,12 @@ def create_srr_single_volume(srr_name, infile, tmp_srr_name=None):
 			# store the raw data for any blocks found
 			srr.write(block.block_bytes())
 				
-		return True
-	finally:
-		# when an IOError is raised, we close the file for further cleanup
 		srr.close()
+		return True
+	except BaseException:
+		# don't leave a partially finished file
+		_remove_failed(srr, tmp_srr_name)
+		raise
 
 def _rarreader_usenet(rarfile, read_retries=7):
 	"""Tries redownloading data read_retries times if it fails.
diff --git a/rescene/srr.py b/rescene/srr.py
index f6daa53..258a181 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -387,7 +387,7 @@ def create_srr(options, infolder, infiles, working_dir):
 
 		# make sure there is no broken SRR file/temporary file left
 		try:
-			os.unlink(srr_name)
+			os.unlink(tmp_srr_name)
 		except:
 			pass
 		mthread.done = True
@@ -601,7 +601,7 @@ WARNING: SRR files for compressed RARs are like SRS files:
 		if options.input_base:  # -i
 			infolder = options.input_base
 
-		if infiles[0].endswith(".srr"):
+		if infiles[0].lower().endswith(".srr"):
 			parser.exit(manage_srr(options, infolder, infiles, working_dir))
 		else:
 			parser.exit(create_srr(options, infolder, infiles, working_dir))
-- 
2.43.0


From 2fd842452582bd442e3d7ae1f903c2cd8b202ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 034/140] fix: replace files at once and clean up after Ctrl+C

---
 rescene/srr.py     | 4 +++-
 rescene/utility.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 258a181..93e0c79 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -378,7 +378,7 @@ def create_srr(options, infolder, infiles, working_dir):
 		else:
 			# User did not want to overwrite existing file
 			print("SRR file not overwritten.")
-	except (EnvironmentError, ValueError, FileNotFound) as err:
+	except BaseException as err:
 		# Can not read basic block header
 		# ValueError: compressed SRR
 		# ValueError: The file is too small.
@@ -390,6 +390,8 @@ def create_srr(options, infolder, infiles, working_dir):
 			os.unlink(tmp_srr_name)
 		except:
 			pass
+		if not isinstance(err, (EnvironmentError, ValueError, FileNotFound)):
+			raise  # e.g. Ctrl+C
 		mthread.done = True
 		mthread.join()
 		print(err, file=sys.stderr)
diff --git a/rescene/utility.py b/rescene/utility.py
index 05306a6..e4e49de 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -488,7 +488,8 @@ def replace_result(src, dest):
 	# (.srr question for replacement is false)
 	if os.path.isfile(src):
 		# delete previous file if it exists: user allowed to overwrite it
-		if os.path.isfile(dest):
+		# (not needed when the rename does it without losing the old file)
+		if os.path.isfile(dest) and not hasattr(os, "replace"):
 			try:
 				os.unlink(dest)
 			except OSError as delete_error:
@@ -511,7 +512,7 @@ def replace_result(src, dest):
 		# concurrency issue: it can fail here with a
 		# WindowsError/OSError when the other process made the file
 		try:
-			os.rename(src, dest)
+			replace_file(src, dest)
 		except OSError:
 			print("Two processes are now trying to output the same file!")
 			if _DEBUG:
-- 
2.43.0


From 098bbc5f6c8f2c3ab72fc72f7243a4bd69bcb68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 035/140] fix: create SRS in current directory when given a
 bare file name

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index a43d0b7..a82f3c0 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -323,7 +323,7 @@ def main(argv=None, no_exit=False):
 				else:
 					samp = os.path.basename(sample_file).rsplit(".", 1)
 					srs_name = os.path.join(out_folder, samp[0] + ext)
-			srsdir = os.path.dirname(srs_name)
+			srsdir = os.path.dirname(srs_name) or os.curdir
 			if not os.path.exists(srsdir):
 				pexit(1, "Output directory does not exist: %s\n" %
 				         srsdir, False)
-- 
2.43.0


From e8f8fa79090857e5eca610a986a2e16581757d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 036/140] fix: rebuild AVI samples that have tracks without
 data

---
 resample/main.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index d6874d5..ed8b0bd 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3406,8 +3406,7 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	rr = RiffReader(RiffReadMode.SRS, path=srs)
 
 	# set cursor for temp files back at the beginning
-	for track in tracks.values():
-		track.track_file.seek(0)
+	reset_file_positions(tracks)
 
 	with open(out_file, "wb") as sample:
 		block_count = 0
@@ -3429,10 +3428,11 @@ def avi_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 					if block_count % 15 == 0:
 						show_spinner(block_count)
 
-					track = tracks[rr.current_chunk.stream_number]
-					buff = track.track_file.read(rr.current_chunk.length)
-					sample.write(buff)
-					crc = crc32(buff, crc) & 0xFFFFFFFF
+					if rr.current_chunk.length:  # tracks can be empty
+						track = tracks[rr.current_chunk.stream_number]
+						buff = track.track_file.read(rr.current_chunk.length)
+						sample.write(buff)
+						crc = crc32(buff, crc) & 0xFFFFFFFF
 					rr.skip_contents()
 				else:
 					buff = rr.read_contents()
-- 
2.43.0


From c14664804177abfb8ceaf092ffbc7e6c49398923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 037/140] fix: read MKV blocks with one laced frame

---
 resample/ebml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index c7e4a51..17e8dae 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -119,7 +119,7 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		if lace_type == EbmlLaceType.NONE:
 			frame_sizes[i] = data_length
 		elif lace_type == EbmlLaceType.FIXED:
-			frame_sizes[i] = data_length // lace_frame_count
+			frame_sizes[i] = (data_length - bytes_consumed) // lace_frame_count
 		elif lace_type == EbmlLaceType.XIPH:
 			if (i < lace_frame_count - 1):
 				nextByte = 0xFF
@@ -134,7 +134,7 @@ def GetBlockFrameLengths(lace_type, data_length, stream):
 		else:  # EbmlLaceType.Ebml
 			bc = 0
 
-			if i == 0:
+			if i == 0 and lace_frame_count > 1:
 				frame_sizes[i], bc = GetEbmlUIntStream(stream)
 			elif i < lace_frame_count - 1:
 				# convert UInt to SInt then add to previous
-- 
2.43.0


From 0be37bb3c9627bdca5a5967a9125a0ab5c35356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 038/140] fix: read MKV track numbers above 127

---
 resample/ebml.py |  7 +++++++
 resample/main.py | 18 +++++++++---------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/resample/ebml.py b/resample/ebml.py
index 17e8dae..456c714 100644
--- a/resample/ebml.py
+++ b/resample/ebml.py
@@ -73,6 +73,13 @@ def GetEbmlUInt(buff, offset, count):
 
 	return size  # integer size
 
+def GetUInt(buff):
+	"""Value of an unsigned integer element (no length descriptor)."""
+	value = 0
+	for byte in bytearray(buff):
+		value = (value << 8) + byte
+	return value
+
 def GetEbmlUIntStream(stream):
 	(first_byte,) = BE_BYTE.unpack(stream.read(1))
 	bytes_consumed = GetUIntLength(first_byte)
diff --git a/resample/main.py b/resample/main.py
index ed8b0bd..a3e7814 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -50,7 +50,7 @@ from rescene.utility import _DEBUG
 from rescene.utility import FileType
 
 from resample.ebml import EbmlReader, EbmlReadMode, EbmlElementType
-from resample.ebml import GetEbmlUInt, MakeEbmlUInt, EbmlID
+from resample.ebml import GetUInt, MakeEbmlUInt, EbmlID
 from resample.riff import RiffReader, RiffReadMode, RiffChunkType
 from resample.riff import InvalidMatchOffsetException
 from resample.mov import MovReader, MovReadMode
@@ -760,7 +760,7 @@ def mkv_load_srs(self, infile):
 			er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			done = False
 		elif er.element_type == EbmlElementType.TrackCodec:
 			elm_content = er.read_contents()
@@ -772,7 +772,7 @@ def mkv_load_srs(self, infile):
 					elm_content.decode("ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3  # 3: header stripping
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -1103,7 +1103,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			elm_content = er.read_contents()
 			other_length += len(elm_content)
 			mkv_data.crc32 = crc32(elm_content, mkv_data.crc32)
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -1123,7 +1123,7 @@ def mkv_profile_sample(self, mkv_data):  # FileData object
 			# 1: bzlib
 			# 2: lzo1x
 			# 3: header stripping
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			tracks[current_track_nb].compression_algorithm = algorithm
 			current_flag = algorithm == 3
 		elif etype == EbmlElementType.CompressionSettings:
@@ -2268,7 +2268,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			done = _mkv_block_find(self, tracks, er, done, tracks_main)
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -2281,7 +2281,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
@@ -3120,7 +3120,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				er.move_to_child()
 		elif er.element_type == EbmlElementType.TrackNumber:
 			elm_content = er.read_contents()
-			current_track_nb = GetEbmlUInt(elm_content, 0, len(elm_content))
+			current_track_nb = GetUInt(elm_content)
 			if not current_track_nb in tracks_main:
 				td = TrackData()
 				td.track_number = current_track_nb
@@ -3133,7 +3133,7 @@ def mkv_extract_sample_streams(self, tracks, movie):
 			                                        "ascii", errors="ignore")
 		elif er.element_type == EbmlElementType.CompressionAlgorithm:
 			elm_content = er.read_contents()
-			algorithm = GetEbmlUInt(elm_content, 0, len(elm_content))
+			algorithm = GetUInt(elm_content)
 			header_stripping = algorithm == 3
 		elif er.element_type == EbmlElementType.CompressionSettings:
 			elm_content = er.read_contents()
-- 
2.43.0


From 0bfb019bb598d2baecb5d479f4745a0b93892dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 039/140] fix: rebuild MKV samples with attachments of the same
 name

---
 resample/main.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index a3e7814..bf01954 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3141,9 +3141,11 @@ def mkv_extract_sample_streams(self, tracks, movie):
 				tracks_main[current_track_nb].compression_settings = elm_content
 		elif er.element_type == EbmlElementType.AttachedFileName:
 			current_attachment = er.read_contents()
-			if current_attachment not in attachments:
-				att = AttachmentData(current_attachment)
-				attachments[current_attachment] = att
+			# different attachments can have the same name
+			while current_attachment in attachments:
+				current_attachment += b".dupe"
+			att = AttachmentData(current_attachment)
+			attachments[current_attachment] = att
 		elif er.element_type == EbmlElementType.AttachedFileData:
 			attachment = attachments[current_attachment]
 			attachment.size = er.current_element.length
@@ -3475,6 +3477,7 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 
 	with open(out_file, "wb") as sample:
 		current_attachment = None
+		attachment_names = set()
 		cluster_count = 0
 		while er.read():
 			# the ReSample element is the only part of the SRS file
@@ -3503,9 +3506,13 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				current_attachment = er.read_contents()
 				sample.write(current_attachment)
 				crc = crc32(current_attachment, crc) & 0xFFFFFFFF
+				while current_attachment in attachment_names:
+					current_attachment += b".dupe"
+				attachment_names.add(current_attachment)
 			elif er.element_type == EbmlElementType.AttachedFileData:
 				attachment = attachments[current_attachment]
 				# restore data from extracted attachments
+				attachment.attachment_file.seek(0)
 				buff = attachment.attachment_file.read()
 				sample.write(buff)
 				crc = crc32(buff, crc) & 0xFFFFFFFF
-- 
2.43.0


From 6a45c113b3ed709fe4548b58409af6301f433ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 040/140] fix: locate MKV tracks with different stripped
 headers in both files

---
 resample/main.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index bf01954..34d59c5 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2311,12 +2311,12 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 	srs_cut_bug = track.track_number in self.cut_data
 
 	# keep track of the compression settings differences
-	if ((track.compression_settings or track2.compression_settings) and
-		(track.compression_settings != track2.compression_settings)):
-		if track.compression_settings:
-			sformain = track.compression_settings
-		if track2.compression_settings:
-			sforsample = track2.compression_settings
+	if track.compression_settings != track2.compression_settings:
+		# only the part that isn't removed in both files matters
+		sformain = track.compression_settings[
+			len(track2.compression_settings):]
+		sforsample = track2.compression_settings[
+			len(track.compression_settings):]
 
 	# it's possible the sample didn't require
 	# or contain data for all tracks in the main file
-- 
2.43.0


From 0113c62de39a0d122264e74e298c6fd28ec1f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 041/140] fix: rebuild MKV samples with empty blocks

---
 resample/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 34d59c5..31f23df 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3521,9 +3521,11 @@ def mkv_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				else:
 					er.skip_contents()
 			elif er.element_type == EbmlElementType.Block:
-				track = tracks[er.current_element.track_number]
-				# restore data from extracted tracks
-				buff = track.track_file.read(er.current_element.length)
+				buff = b""
+				if er.current_element.length:  # blocks can be empty
+					track = tracks[er.current_element.track_number]
+					# restore data from extracted tracks
+					buff = track.track_file.read(er.current_element.length)
 				rbh = er.current_element.raw_block_header
 				sample.write(rbh)
 				crc = crc32(rbh, crc) & 0xFFFFFFFF
-- 
2.43.0


From 3a0df2c9759b23523c6e847c20ca3bf623064aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 042/140] fix: locate MKV tracks when the signature ends in a
 stripped header

---
 resample/main.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 31f23df..cf7197a 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2337,8 +2337,8 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 				check_bytes = track.check_bytes  # from sample
 				check_bytes += sforsample  # stored settings from main video
 				check_bytes += buff[offset + len(sformain):
-									offset + len(sformain) + lcb -
-									len(track.check_bytes) - len(sforsample)]
+				                    offset + len(sformain) + lcb]
+				check_bytes = check_bytes[:lcb]
 
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
@@ -2356,7 +2356,8 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 				lcb = min(len(track.signature_bytes), flength)
 				check_bytes = sforsample
 				check_bytes += buff[offset + len(sformain):
-				                    offset + len(sformain) + lcb - len(sforsample)]
+				                    offset + len(sformain) + lcb]
+				check_bytes = check_bytes[:lcb]
 				if track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
 					track.match_offset = (er.current_element.element_start_pos
@@ -2406,8 +2407,8 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 			check_bytes = track.check_bytes_bug  # from sample
 			check_bytes += sforsample  # stored settings from main video
 			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb -
-								len(track.check_bytes_bug) - len(sforsample)]
+			                    offset + len(sformain) + lcb]
+			check_bytes = check_bytes[:lcb]
 
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
@@ -2418,7 +2419,8 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 			lcb = min(len(track.signature_bytes), flength)
 			check_bytes = sforsample
 			check_bytes += buff[offset + len(sformain):
-								offset + len(sformain) + lcb - len(sforsample)]
+			                    offset + len(sformain) + lcb]
+			check_bytes = check_bytes[:lcb]
 			if track.signature_bytes.startswith(check_bytes):
 				track.check_bytes_bug = check_bytes
 				match_offset = (er.current_element.element_start_pos
-- 
2.43.0


From a7bae482380e0b1cbfaec3dbd035d0b5c94749e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 043/140] fix: read MP4 track number from version 1 track
 headers

---
 resample/main.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index cf7197a..fce9f9d 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1242,7 +1242,7 @@ def profile_mp4(mp4_data,  # FileData object
 
 		if atype in (b"tkhd",):
 			# grab track id
-			(track_id,) = BE_LONG.unpack_from(data, 12)
+			track_id = mp4_track_id(data)
 			assert track_id not in tracks
 			tracks[track_id] = TrackData()
 			tracks[track_id].track_number = track_id
@@ -1318,6 +1318,13 @@ def profile_mp4(mp4_data,  # FileData object
 # 	assert meta_length == mp4_data.size - data_length
 	return tracks
 
+def mp4_track_id(data):
+	"""Track number from the contents of a track header atom."""
+	# version 1 has creation and modification times of 8 bytes
+	offset = 20 if data[:1] == b"\x01" else 12
+	(track_id,) = BE_LONG.unpack_from(data, offset)
+	return track_id
+
 def stsc(samples_chunk):
 	"""Decompact compactly coded table."""
 	old = samples_chunk
@@ -3618,7 +3625,7 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 
 		if atype in (b"tkhd",):
 			# grab track id
-			(track_id,) = BE_LONG.unpack_from(data, 12)
+			track_id = mp4_track_id(data)
 			current_track = tracks[track_id]
 
 			# initialization
-- 
2.43.0


From ee7fd03c8cbbc2ddce1ebbe8721d3e26ff02ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 044/140] fix: flag big track numbers in SRS files

---
 resample/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index fce9f9d..641901d 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -440,10 +440,13 @@ class TrackData(object):
 		big_file = self.flags & self.BIG_FILE
 		data_length = 14 + len(self.signature_bytes) + (8 if big_file else 4)
 
+		if self.track_number >= 2 ** 16:
+			self.flags |= self.BIG_TACK_NUMBER
+
 		buff = io.BytesIO()
 		buff.write(S_SHORT.pack(self.flags))
 
-		if self.track_number >= 2 ** 16:
+		if self.flags & self.BIG_TACK_NUMBER:
 			data_length += 2
 			buff.write(S_LONG.pack(self.track_number))
 		else:
-- 
2.43.0


From b1af3e1fe4a6246ea021965f388a10503d9306c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 045/140] fix: rebuild MP4 samples that have tracks without
 data

---
 resample/main.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 641901d..84357e9 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2444,6 +2444,9 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 def mp4_find_sample_stream(track, mtrack, main_mp4_file):
 	"""Check if the track from the sample exist in the main file. This is
 	done based on the track signature alone, not the whole data stream."""
+	if not mtrack.chunk_offsets:  # empty track
+		return track
+
 	mtrack = mp4_add_track_stream(mtrack)
 	# open stream here so we open and close the mp4 file just once
 	mtrack.trackstream.stream = open_main(main_mp4_file)
@@ -3250,6 +3253,8 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 	                      archived_file_name=self.archived_file_name)
 
 	for track_nb, track in tracks.items():
+		if not track.data_length:
+			continue
 		mtrack = mtracks[track_nb]
 		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
 		tracks[track_nb] = track
@@ -3562,8 +3567,8 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 	crc = 0  # Crc32.StartValue
 
 	tracks = profile_mp4_srs(srs, tracks)
+	reset_file_positions(tracks)
 	for track in tracks.values():
-		track.track_file.seek(0)
 		track = mp4_add_track_stream(track)  # for the sorting later on
 
 	mr = MovReader(MovReadMode.SRS, path=srs)
@@ -3584,7 +3589,10 @@ def mp4_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				# order the interleaved chunks
 				for (chunk, track_nb) in order_chunks(tracks):
 					track = tracks[track_nb]
-					buff = track.track_file.read(sum(chunk.samples))
+					chunk_size = sum(chunk.samples)
+					if not chunk_size:
+						continue
+					buff = track.track_file.read(chunk_size)
 					# write all the stream data
 					sample.write(buff)
 					crc = crc32(buff, crc) & 0xFFFFFFFF
@@ -3629,6 +3637,9 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 		if atype in (b"tkhd",):
 			# grab track id
 			track_id = mp4_track_id(data)
+			if track_id not in tracks:  # a track without data
+				tracks[track_id] = TrackData()
+				tracks[track_id].track_number = track_id
 			current_track = tracks[track_id]
 
 			# initialization
-- 
2.43.0


From ecb8d32bed9629da3c0f3e5f7d97d075ccdfa4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 046/140] fix: ignore streams of the main WMV that the sample
 does not have

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 84357e9..255a64e 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2693,7 +2693,7 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 						# to see if it's the start of a new match
 						# (probably will never happen with AVI
 						# but it does in MKV, so just in case...)
-						if not track.check_bytes:
+						if track.signature_bytes and not track.check_bytes:
 							payload_bytes = payload.data
 
 							search_byte = track.signature_bytes[0]
-- 
2.43.0


From 7f46bfcfcf2af263e1d1d9700e807b28d23cd408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 047/140] fix: don't lose the position in WMV SRS files while
 rebuilding

---
 resample/asf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/asf.py b/resample/asf.py
index d944e2a..4012e62 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -185,7 +185,9 @@ class AsfReader(object):
 		return buff
 
 	def read_data_part(self, offset, length):
-		if (offset + length == self.current_object.start_pos +
+		# sizes of data packets aren't reliable in SRS files
+		if (self.mode != AsfReadMode.SRS and
+			offset + length == self.current_object.start_pos +
 		                       self.current_object.size):
 			self.read_done = True
 		self._asf_stream.seek(offset, os.SEEK_SET)
-- 
2.43.0


From 556b7e823f5d96f5654115cec6d24dbffea72d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 048/140] fix: exit code for corrupt input instead of a
 TypeError

---
 resample/srs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index a82f3c0..342c69e 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -650,7 +650,7 @@ def main(argv=None, no_exit=False):
 		if fault.endswith("Aborting"):
 			pexit(2, "Corruption detected: %s\n" % fault)
 		else:
-			exit(2, "Corruption detected: %s. Aborting.\n" % fault)
+			pexit(2, "Corruption detected: %s. Aborting.\n" % fault)
 	except fpcalc.ExecutableNotFound as err:
 		pexit(3, str(err))
 	except AttributeError as err:
-- 
2.43.0


From f534f0418fff3ac434ccdbfeaff82fd69db1f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 049/140] fix: read WMV stream numbers above 15

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 255a64e..d7a8e46 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1528,7 +1528,7 @@ def profile_wmv(wmv_data):  # FileData object
 			# grab track id
 			i = 16 + 16 + 8 + 4 + 4
 			(flags,) = S_SHORT.unpack_from(data, i)
-			track_id = flags & 0xF
+			track_id = flags & 0x7F
 			assert track_id not in tracks
 			tracks[track_id] = TrackData()
 			tracks[track_id].track_number = track_id
-- 
2.43.0


From 7f136865a4378560cce01e1f24ef1908285cf6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 050/140] fix: keep the existing sample when a rebuild fails

---
 resample/srs.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index 342c69e..e439f69 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -609,18 +609,8 @@ def main(argv=None, no_exit=False):
 							replace_result(out_file, result_file)
 				else:
 					# delete reconstruction failure
-					if not is_music:
-						replace_result(out_file, result_file)
-						os.unlink(result_file)
-					elif is_music:
-						m = os.path.normpath(os.path.realpath(movie))
-						r = os.path.normpath(os.path.realpath(result_file))
-						if m == r:
-							# always keep original track on retag failure!
-							print("Music track not deleted!")
-						else:
-							replace_result(out_file, result_file)
-							os.unlink(result_file)
+					# (an existing result file always stays)
+					os.unlink(out_file)
 
 				msg = "\nRebuild failed for sample: %s\n" % srs_data.name
 				pexit(5, msg, False)
-- 
2.43.0


From c7ff406036147950afc06752a723fc6935b988cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 051/140] fix: remove temporary files when creating or
 rebuilding a sample fails

---
 resample/srs.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/resample/srs.py b/resample/srs.py
index e439f69..ef03beb 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -225,6 +225,8 @@ def main(argv=None, no_exit=False):
 		(options.parent_directory and options.srs_parent_directory)):
 		pexit(1, "Make up your mind with the d's...\n")
 
+	temp_files = []  # not existing anymore when everything went well
+
 	try:
 		ftype_arg0 = ""
 
@@ -362,6 +364,7 @@ def main(argv=None, no_exit=False):
 				return pexit(0, "\nOperation aborted.\n", False)
 
 			srs_name_tmp = create_temp_file_name(srs_name)
+			temp_files.append(srs_name_tmp)
 
 			sample.create_srs(tracks, sample_file_data, sample_file,
 			                  srs_name_tmp, options.big_file)
@@ -511,6 +514,7 @@ def main(argv=None, no_exit=False):
 			
 			# 6) Recreate the sample
 			out_file = create_temp_file_name(result_file)
+			temp_files.append(out_file)
 			sfile = sample.rebuild_sample(srs_data, tracks, attachments,
 										  srs, out_file)
 			if sfile and sfile.crc32 == srs_data.crc32:
@@ -528,6 +532,7 @@ def main(argv=None, no_exit=False):
 					if v.out_file:
 						os.unlink(v.out_file)
 					v.out_file = create_temp_file_name(result_file)
+					temp_files.append(v.out_file)
 					v.sfile = sample.rebuild_sample(
 						srs_data, v.tracks, v.attachments, srs, v.out_file)
 					return v.sfile.crc32 == srs_data.crc32
@@ -604,13 +609,12 @@ def main(argv=None, no_exit=False):
 							print("No replacing of source file for music.")
 							print("The .tmp file will be kept:")
 							print(os.path.basename(out_file))
+							temp_files.remove(out_file)
 						else:
 							# only keep broken file if source isn't overwritten
 							replace_result(out_file, result_file)
-				else:
-					# delete reconstruction failure
-					# (an existing result file always stays)
-					os.unlink(out_file)
+				# the reconstruction failure is deleted at the end
+				# (an existing result file always stays)
 
 				msg = "\nRebuild failed for sample: %s\n" % srs_data.name
 				pexit(5, msg, False)
@@ -660,6 +664,11 @@ def main(argv=None, no_exit=False):
 	except Exception as err:
 		traceback.print_exc()
 		pexit(99, "Unexpected Error:\n%s\n" % err)
+	finally:
+		# don't leave partial files behind after a failure
+		for temp_file in temp_files:
+			if os.path.isfile(temp_file):
+				os.unlink(temp_file)
 
 if __name__ == "__main__":
 	if "--profile" in sys.argv:
-- 
2.43.0


From e48ed549014dcf4ceb1481492028e1accc9ecc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 052/140] fix: rebuild FLAC samples that have an ID3 tag

---
 resample/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index d7a8e46..ac6d851 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -3801,7 +3801,7 @@ def flac_rebuild_sample(self, srs_data, tracks, attachments, srs, out_file):
 				flac.write(b"fLaC")
 				crc = crc32(b"fLaC", crc)
 				fr.skip_contents()
-			elif (fr.block_type in bytearray(b"stu") and
+			elif (fr.block_type in tuple(bytearray(b"stu")) and
 					srs_flac_blocks <= 3):
 				srs_flac_blocks += 1
 				fr.skip_contents()
-- 
2.43.0


From c06f5c442daae0509825a16cdeccab8907d7c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 053/140] fix: read FLAC files smaller than an ID3v1 tag

---
 resample/flac.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/flac.py b/resample/flac.py
index 8d51ab5..beb091c 100644
--- a/resample/flac.py
+++ b/resample/flac.py
@@ -135,7 +135,8 @@ class FlacReader(object):
 		if self.block_type == 0xFF:  # frame data
 			block_length = self._file_length - block_start_position
 			# check for ID3v1 tag
-			self._flac_stream.seek(self._file_length - 128)
+			self._flac_stream.seek(max(block_start_position,
+			                           self._file_length - 128))
 			if self._flac_stream.read(3) == b"TAG":
 				block_length -= 128
 			self._block_header = b""
-- 
2.43.0


From 6b74d86013052154b7f97ef3a688d6c611794808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 054/140] fix: read MP3 and SRS files smaller than an ID3v1 tag

---
 resample/mp3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index c498dcf..ab20dfc 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -123,8 +123,8 @@ class Mp3Reader(object):
 
 		# 2) check for ID3v1 (last 128 bytes of mp3 file)
 		end_meta_data_offset = self._file_length
-		self._mp3_stream.seek(-128, os.SEEK_END)
-		idv1_start_offset = self._mp3_stream.tell()
+		idv1_start_offset = max(0, self._file_length - 128)
+		self._mp3_stream.seek(idv1_start_offset, os.SEEK_SET)
 		first = self._mp3_stream.read(3)
 		if first == b"TAG":
 			idv1_block = Block(128, "TAG", idv1_start_offset)
-- 
2.43.0


From aa7afbd93abbd42e1b7f385f99f08953366dea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 055/140] fix: read small (SRS) files with a Lyrics3 v1 tag

---
 resample/mp3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index ab20dfc..6a13d62 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -153,13 +153,16 @@ class Mp3Reader(object):
 		if end_meta_data_offset - 9 >= 0:
 			self._mp3_stream.seek(end_meta_data_offset - 9, os.SEEK_SET)
 			if b"LYRICSEND" == self._mp3_stream.read(9):
-				self._mp3_stream.seek(end_meta_data_offset - 5100, os.SEEK_SET)
-				lyrics_data = self._mp3_stream.read(5100)
+				# less data can precede the footer in small (SRS) files
+				lyrics_offset = max(0, end_meta_data_offset - 5100)
+				self._mp3_stream.seek(lyrics_offset, os.SEEK_SET)
+				lyrics_data = self._mp3_stream.read(end_meta_data_offset -
+				                                    lyrics_offset)
 				index = lyrics_data.find(b"LYRICSBEGIN")
 				if index == -1:
 					raise InvalidDataException(
 							"Unable to find start of LyricsV1 block")
-				start_block = end_meta_data_offset - 5100 + index
+				start_block = lyrics_offset + index
 				lyrics3_block = Block(end_meta_data_offset - start_block,
 				                      "LYRICS", start_block)
 				self.blocks.append(lyrics3_block)
-- 
2.43.0


From 8adde6b2f33d40533be70a4bd4822cd3094e8b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 056/140] fix: locate MP3 data behind both a tag and other
 prepended data

---
 resample/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index ac6d851..dec18cd 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2824,8 +2824,9 @@ def mp3_match_signature(track, block, mr):
 		data = mr.read_part(size, boffset)
 		found_offset = data.find(track.signature_bytes)
 		if found_offset > -1:
-			track.match_offset = boffset + found_offset
-			track.match_length = min(track.data_length, block.size)
+			boffset += found_offset
+			track.match_offset = block.start_pos + boffset
+			track.match_length = min(track.data_length, block.size - boffset)
 			break
 		boffset += (batchsize - SIG_SIZE + 1)
 	return track
-- 
2.43.0


From c3a41962bca5c9e4359809248519a06da377736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 057/140] fix: don't take the header of an APEv2 tag for an
 ID3v1 tag

---
 resample/mp3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resample/mp3.py b/resample/mp3.py
index 6a13d62..5a5988e 100644
--- a/resample/mp3.py
+++ b/resample/mp3.py
@@ -126,7 +126,10 @@ class Mp3Reader(object):
 		idv1_start_offset = max(0, self._file_length - 128)
 		self._mp3_stream.seek(idv1_start_offset, os.SEEK_SET)
 		first = self._mp3_stream.read(3)
-		if first == b"TAG":
+		# the header of an APEv2 tag contains these characters too
+		self._mp3_stream.seek(max(0, idv1_start_offset - 3), os.SEEK_SET)
+		is_ape = self._mp3_stream.read(8) == b"APETAGEX"
+		if first == b"TAG" and not is_ape:
 			idv1_block = Block(128, "TAG", idv1_start_offset)
 			self.blocks.append(idv1_block)
 			end_meta_data_offset = idv1_start_offset
-- 
2.43.0


From 7484c9b18fbfa3cd7ba09c087a593b38bd45d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 058/140] fix: don't loop forever on WMV objects and MP4 boxes
 with impossible sizes

---
 resample/asf.py | 10 ++++++++++
 resample/mov.py |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/resample/asf.py b/resample/asf.py
index 4012e62..6115e95 100644
--- a/resample/asf.py
+++ b/resample/asf.py
@@ -169,7 +169,16 @@ class AsfReader(object):
 
 		return True
 
+	def check_object_size(self):
+		"""The size includes the header: no progress otherwise."""
+		o = self.current_object
+		if o.size < len(o.raw_header):
+			raise InvalidDataException("Invalid object length at 0x%08X" %
+			                           o.start_pos)
+
 	def read_contents(self):
+		self.check_object_size()
+
 		# if read_done is set, we've already read or skipped it.
 		# back up and read again?
 		if self.read_done:
@@ -195,6 +204,7 @@ class AsfReader(object):
 
 	def skip_contents(self):
 		if not self.read_done:
+			self.check_object_size()
 			self.read_done = True
 			self._asf_stream.seek(self.current_object.start_pos +
 			                      self.current_object.size, os.SEEK_SET)
diff --git a/resample/mov.py b/resample/mov.py
index 10ca160..9302507 100644
--- a/resample/mov.py
+++ b/resample/mov.py
@@ -130,6 +130,11 @@ class MovReader(object):
 			raise InvalidDataException("Invalid box length at 0x%08X" %
 			                           atom_start_position)
 
+		# the length includes the header: no progress would be made otherwise
+		if atom_length < hsize:
+			raise InvalidDataException("Invalid box length at 0x%08X" %
+			                           atom_start_position)
+
 		self.current_atom = Atom(atom_length, self.atom_type)
 		self.current_atom.raw_header = self._atom_header
 		self.current_atom.start_pos = atom_start_position
-- 
2.43.0


From 6fce259589bd2547f945d1009ba6dcd9afbe004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 059/140] fix: never write a rebuilt sample outside of the
 output folder

---
 resample/srs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index ef03beb..4d6d8e7 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -495,7 +495,9 @@ def main(argv=None, no_exit=False):
 					pexit(4, msg, False)
 
 			# 5) Ask user for overwrite permission
-			result_file = os.path.join(out_folder, srs_data.name)
+			# never a path: always write in the output folder
+			result_file = os.path.join(out_folder,
+			                           os.path.basename(srs_data.name))
 			if not can_overwrite(result_file, options.always_yes):
 				pexit(1, "\nOperation aborted.\n", False)
 
-- 
2.43.0


From 895232da67323c69b229160c88849b7aa9b2dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 060/140] fix: error for SRS files without sample data instead
 of creating them

---
 resample/main.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index dec18cd..77a44cb 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -719,8 +719,13 @@ class M2tsReSample(ReSample):
 	def rebuild_sample(self, *args, **kwargs):
 		return m2ts_rebuild_sample(self, *args, **kwargs)
 
+def check_data_found(srs_data):
+	if srs_data is None:
+		raise ValueError("No sample data found in the SRS file")
+
 def avi_load_srs(self, infile):
 	tracks = {}
+	srs_data = None
 	rr = RiffReader(RiffReadMode.SRS, infile)
 	done = False
 	while not done and rr.read():
@@ -742,6 +747,7 @@ def avi_load_srs(self, infile):
 			else:
 				rr.skip_contents()
 	rr.close()
+	check_data_found(srs_data)
 	return srs_data, tracks
 
 def mkv_load_srs(self, infile):
@@ -795,6 +801,7 @@ def mkv_load_srs(self, infile):
 		else:
 			er.skip_contents()
 	er.close()
+	check_data_found(srs_data)
 	
 	for track in tracks.values():
 		if not enough_signature_data(track):
@@ -807,6 +814,7 @@ def mkv_load_srs(self, infile):
 
 def mp4_load_srs(self, infile):
 	tracks = {}
+	srs_data = None
 	mr = MovReader(MovReadMode.SRS, infile)
 	while mr.read():
 		if mr.atom_type == b"SRSF":
@@ -819,10 +827,12 @@ def mp4_load_srs(self, infile):
 		else:
 			mr.skip_contents()
 	mr.close()
+	check_data_found(srs_data)
 	return srs_data, tracks
 
 def wmv_load_srs(self, infile):
 	tracks = {}
+	srs_data = None
 	ar = AsfReader(AsfReadMode.SRS, infile)
 	while ar.read():
 		o = ar.current_object
@@ -838,10 +848,12 @@ def wmv_load_srs(self, infile):
 		else:
 			ar.skip_contents()
 	ar.close()
+	check_data_found(srs_data)
 	return srs_data, tracks
 
 def flac_load_srs(self, infile):
 	tracks = {}
+	srs_data = None
 	fr = FlacReader(infile)
 	while fr.read():
 		if fr.block_type == ord("s"):
@@ -858,10 +870,12 @@ def flac_load_srs(self, infile):
 		if fr.block_type == 0 or fr.current_block.is_last_block():
 			break
 	fr.close()
+	check_data_found(srs_data)
 	return srs_data, tracks
 
 def mp3_load_srs(self, infile):
 	tracks = {}
+	srs_data = None
 	mr = Mp3Reader(infile)
 	for block in mr.read():
 		if block.type == "SRSF":
@@ -872,10 +886,12 @@ def mp3_load_srs(self, infile):
 		elif block.type == "SRSP":
 			tracks[1] = read_fingerprint_data(tracks[1], mr.read_contents()[8:])
 	mr.close()
+	check_data_found(srs_data)
 	return srs_data, tracks
 
 def stream_load_srs(self, infile):
 	tracks = {}
+	srs_data = None
 	sr = StreamReader(infile)
 	for block in sr.read():
 		if block.type == "SRSF":
@@ -884,6 +900,7 @@ def stream_load_srs(self, infile):
 			track = TrackData(sr.read_contents())
 			tracks[track.track_number] = track
 	sr.close()
+	check_data_found(srs_data)
 	return srs_data, tracks
 
 def m2ts_load_srs(self, infile):
@@ -1878,7 +1895,13 @@ def m2ts_profile_sample(self, m2ts_data):  # FileData object
 
 	return tracks, {}
 
+def check_data_stored(stored):
+	"""An SRS file without the sample data can't be used."""
+	if not stored:
+		raise ValueError("No location found to store the sample data")
+
 def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as srsf:
 		rr = RiffReader(RiffReadMode.AVI, sample)
 		while rr.read():
@@ -1892,6 +1915,7 @@ def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# we put them after the avi headers
 				# so mediainfo can still read them from the SRS
 				if c.list_type == b"LIST" and c.fourcc == b"movi":
+					stored = True
 					file_chunk = sample_data.serialize_as_riff()
 					assert file_chunk
 					srsf.write(file_chunk)
@@ -1918,8 +1942,10 @@ def avi_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				if rr.has_padding:
 					srsf.write(S_BYTE.pack(rr.padding_byte))
 		rr.close()
+	check_data_stored(stored)
 
 def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as srsf:
 		er = EbmlReader(EbmlReadMode.MKV, sample)
 		while er.read():
@@ -1930,6 +1956,7 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			if er.element_type == EbmlElementType.Segment:
 				# in store mode, create and write our custom ebml element
 				# as the first child of the segment
+				stored = True
 				file_element = sample_data.serialize_as_ebml()
 				element_size = len(file_element)
 
@@ -1970,8 +1997,10 @@ def mkv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# EbmlElementType.AttachedFileName
 				srsf.write(er.read_contents())
 		er.close()
+	check_data_stored(stored)
 
 def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as movf:
 		mr = MovReader(MovReadMode.MP4, sample)
 		while mr.read():
@@ -1980,6 +2009,7 @@ def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
 			if atom.type == b"mdat":
 				# in store mode, create and write our custom atoms
 				# as atom child in the root
+				stored = True
 				file_atom = sample_data.serialize_as_mov()
 				movf.write(file_atom)
 
@@ -1998,8 +2028,10 @@ def mp4_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				movf.write(mr.read_contents())
 		mr.close()
+	check_data_stored(stored)
 
 def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as srsf:
 		ar = AsfReader(AsfReadMode.WMV, sample)
 		while ar.read():
@@ -2032,6 +2064,7 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 
 				# in store mode, create and write our custom objects
 				# as object child in the root
+				stored = True
 				file_atom = sample_data.serialize_as_asf()
 				srsf.write(file_atom)
 
@@ -2056,8 +2089,10 @@ def wmv_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				srsf.write(ar.read_contents())
 		ar.close()
+	check_data_stored(stored)
 
 def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
+	stored = False
 	with open(srs, "wb") as flacf:
 		fr = FlacReader(sample)
 		while fr.read():
@@ -2067,6 +2102,7 @@ def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
 
 			if fr.block_type == "fLaC":
 				# in store mode, create and write our custom blocks
+				stored = True
 				file_block = sample_data.serialize_as_flac()
 				flacf.write(file_block)
 
@@ -2083,6 +2119,7 @@ def flac_create_srs(self, tracks, sample_data, sample, srs, big_file):
 				# do copy everything else
 				flacf.write(fr.read_contents())
 		fr.close()
+	check_data_stored(stored)
 
 def mp3_create_srs(self, tracks, sample_data, sample, srs, big_file):
 	with open(srs, "wb") as mp3f:
-- 
2.43.0


From a6ef5f5290ea404cfd13d60dc762f417905462bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 061/140] fix: check the amounts in MP4 tables before expanding
 them in memory

---
 resample/main.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 77a44cb..9355425 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -1299,6 +1299,7 @@ def profile_mp4(mp4_data,  # FileData object
 				# samples_per_chunk
 				# sample_description_index
 				result_tuple = struct.unpack_from(">LLL", data, j)
+				mp4_check_amount(result_tuple[0], mr._file_length)
 				current_track.chunk_lengths.append(result_tuple)
 
 			# enlarge compactly coded tables
@@ -1315,8 +1316,9 @@ def profile_mp4(mp4_data,  # FileData object
 					(out,) = BE_LONG.unpack_from(data, j)
 					current_track.sample_lengths.append(out)
 			else:
-				for i in range(sample_count):
-					current_track.sample_lengths.append(sample_size)
+				mp4_check_amount(sample_count, mr._file_length)
+				current_track.sample_lengths.extend(
+					[sample_size] * sample_count)
 # 			print(current_track.sample_lengths)
 
 		if (current_track and (not track_processed) and
@@ -1345,6 +1347,12 @@ def mp4_track_id(data):
 	(track_id,) = BE_LONG.unpack_from(data, offset)
 	return track_id
 
+def mp4_check_amount(amount, limit):
+	"""Stops on damaged tables before they are expanded in memory.
+	The limit is the amount of bytes that are available."""
+	if amount > limit:
+		raise ValueError("Invalid amount in MP4 table: %d" % amount)
+
 def stsc(samples_chunk):
 	"""Decompact compactly coded table."""
 	old = samples_chunk
@@ -3661,6 +3669,8 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 	current_track = None
 	track_processed = False
 	mr = MovReader(MovReadMode.SRS, srs)
+	max_samples = max(mr._file_length,
+		sum(track.data_length for track in tracks.values()))
 	while mr.read():
 		atype = mr.atom_type
 
@@ -3707,6 +3717,7 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 				# samples_per_chunk
 				# sample_description_index
 				result_tuple = struct.unpack_from(">LLL", data, j)
+				mp4_check_amount(result_tuple[0], mr._file_length)
 				current_track.chunk_lengths.append(result_tuple)
 
 			# enlarge compactly coded tables
@@ -3720,8 +3731,9 @@ def profile_mp4_srs(srs, tracks):  # XXX: copy paste edit from other function
 					(out,) = BE_LONG.unpack_from(data, j)
 					current_track.sample_lengths.append(out)
 			else:
-				for i in range(sample_count):
-					current_track.sample_lengths.append(sample_size)
+				mp4_check_amount(sample_count, max_samples)
+				current_track.sample_lengths.extend(
+					[sample_size] * sample_count)
 
 
 		if (current_track and (not track_processed) and
-- 
2.43.0


From 534a3b43c39881ca82574e3de7f0e81d37b519b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 062/140] fix: recognise the type of packed media files the
 same way as plain files

---
 resample/main.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index 9355425..be906d0 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -127,6 +127,12 @@ def file_type_info(ifile):
 
 
 	archived_file_name = ""
+	media_name = ifile  # name of the packed file for RAR archives
+
+	def open_media():
+		if media_name != ifile:
+			return rarstream.RarStream(ifile, archived_file_name)
+		return open(ifile, 'rb')
 
 	try:
 		with open(ifile, 'rb') as ofile:
@@ -152,7 +158,7 @@ def file_type_info(ifile):
 				# use the first file with a supported file extension
 				# (skipping .srt and other encountered files)
 				extension = FileType.VideoExtensions + FileType.AudioExtensions
-				if archf.endswith(extension):
+				if archf.lower().endswith(extension):
 					archived_file_name = archf  # first useful file
 					break
 				first_file = False
@@ -162,12 +168,15 @@ def file_type_info(ifile):
 			if not first_file and archived_file_name:
 				print("Using %s from first RAR." % archived_file_name)
 			rs = rarstream.RarStream(ifile, archived_file_name)
-			marker = rs.read(8)
+			marker = rs.read(14)
+			media_name = rs.packed_file_name
 			rs.close()
 		except Exception as ex:
 			print(ex)
 			print("File: %s" % os.path.basename(ifile))
 			return FileType(FileType.Unknown, archived_file_name)
+		if len(marker) < 14:
+			return FileType(FileType.Unknown, archived_file_name)
 	elif marker.startswith(MARKER_RAR5):
 		print("RAR5 not yet supported.")
 		return FileType(FileType.Unknown, archived_file_name)
@@ -177,7 +186,7 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_AVI):
 		# Some old .mp3 files use the RIFF container too
 		# e.g. (dj_tiesto_presents_allure)-we_ran_at_dawn_vinyl_djnl-bmi
-		if ifile.endswith(".mp3"):
+		if media_name.lower().endswith(".mp3"):
 			return FileType(FileType.MP3, archived_file_name)
 		return FileType(FileType.AVI, archived_file_name)
 	if marker[4:].startswith(MARKER_MP4) or marker.startswith(MARKER_MP4_3GP):
@@ -195,7 +204,7 @@ def file_type_info(ifile):
 	elif marker.startswith(MARKER_ID3):
 		# can be MP3 or FLAC
 		size = decode_id3_size(marker[6:10])
-		with open(ifile, 'rb') as ofile:
+		with open_media() as ofile:
 			ofile.seek(10 + size)
 			if ofile.read(4) == b"fLaC":
 				return FileType(FileType.FLAC, archived_file_name)
@@ -209,17 +218,18 @@ def file_type_info(ifile):
 
 		# last attempt to detect an MP3 file by using the ID3v1 tag
 		# (last 128 bytes of mp3 file)
-		with open(ifile, 'rb') as ofile:
+		with open_media() as ofile:
 			try:
 				ofile.seek(-128, os.SEEK_END)
 				if ofile.read(3) == b"TAG":
 					return FileType(FileType.MP3, archived_file_name)
-			except EnvironmentError:
+			except (EnvironmentError, IndexError):
 				# IOError possible when RAR file is broken
+				# IndexError for small packed files
 				pass
 
 		# check for stream types based on extension and sync for M2TS
-		name = ifile.lower()
+		name = media_name.lower()
 		if name.endswith(FileType.StreamExtensions):
 			# M2TS disabled since it's not working nor completed
 			# still differences in each track
-- 
2.43.0


From d13df10e408326c5cfdd3ee5470d289a4f3f1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 063/140] fix: read MP4 data from the right packed file of the
 RAR set

---
 resample/main.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/resample/main.py b/resample/main.py
index be906d0..9f1471c 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2496,7 +2496,8 @@ def _extra_offsets_x265_bug(self, er, track, sforsample, sformain):
 				track.check_bytes_bug = b""
 		offset += er.current_element.frame_lengths[i]
 
-def mp4_find_sample_stream(track, mtrack, main_mp4_file):
+def mp4_find_sample_stream(track, mtrack, main_mp4_file,
+		archived_file_name=""):
 	"""Check if the track from the sample exist in the main file. This is
 	done based on the track signature alone, not the whole data stream."""
 	if not mtrack.chunk_offsets:  # empty track
@@ -2504,7 +2505,7 @@ def mp4_find_sample_stream(track, mtrack, main_mp4_file):
 
 	mtrack = mp4_add_track_stream(mtrack)
 	# open stream here so we open and close the mp4 file just once
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	data = mtrack.trackstream.read(len(track.signature_bytes))
 # 	from binascii import hexlify
@@ -2671,7 +2672,8 @@ def mp4_find_sample_streams(self, tracks, main_mp4_file):
 	for mtrack in mtracks.values():
 		try:
 			track = tracks[mtrack.track_number]
-			track = mp4_find_sample_stream(track, mtrack, main_mp4_file)
+			track = mp4_find_sample_stream(track, mtrack, main_mp4_file,
+			                               self.archived_file_name)
 # 			print(track)
 # 			print(mtrack)
 			track.main_track = mtrack
@@ -3312,22 +3314,24 @@ def mp4_extract_sample_streams(self, tracks, main_mp4_file):
 		if not track.data_length:
 			continue
 		mtrack = mtracks[track_nb]
-		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file)
+		track = mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		                                  self.archived_file_name)
 		tracks[track_nb] = track
 
 	return tracks, {}  # attachments
 
-def open_main(big_file):
+def open_main(big_file, archived_file_name=""):
 	if utility.is_rar(big_file):
-		return rarstream.RarStream(big_file)
+		return rarstream.RarStream(big_file, archived_file_name)
 	else:
 		return open(big_file, "rb")
 
-def mp4_extract_sample_stream(track, mtrack, main_mp4_file):
+def mp4_extract_sample_stream(track, mtrack, main_mp4_file,
+		archived_file_name=""):
 	"""Can throw InvalidMatchOffset"""
 	track.track_file = tempfile.TemporaryFile()
 	mtrack = mp4_add_track_stream(mtrack)
-	mtrack.trackstream.stream = open_main(main_mp4_file)
+	mtrack.trackstream.stream = open_main(main_mp4_file, archived_file_name)
 
 	mtrack.trackstream.seek(track.match_offset)
 	track.track_file.write(mtrack.trackstream.read(track.data_length))
-- 
2.43.0


From 1090c4a7e6dc886fdf2bd60b44d7473be382b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 064/140] fix: keep the whole text of NZB elements in the Expat
 parser, refuse cut-off documents

---
 usenet/pynzb/expat_nzb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/usenet/pynzb/expat_nzb.py b/usenet/pynzb/expat_nzb.py
index 7637a17..19196fe 100644
--- a/usenet/pynzb/expat_nzb.py
+++ b/usenet/pynzb/expat_nzb.py
@@ -15,6 +15,7 @@ class ExpatNZBParser(BaseNZBParser):
                 bytes=attrs['bytes'],
                 number=attrs['number']
             )
+        self.current_data = ''
 
     def end_element(self, name):
         if name == 'file':
@@ -26,13 +27,15 @@ class ExpatNZBParser(BaseNZBParser):
             self.current_file.add_segment(self.current_segment)
 
     def char_data(self, data):
-        self.current_data = data
+        # the text of one element can be handed over in several pieces
+        self.current_data += data
 
     def parse(self, xml):
         self.files = []
+        self.current_data = ''
         parser = expat.ParserCreate()
         parser.StartElementHandler = self.start_element
         parser.EndElementHandler = self.end_element
         parser.CharacterDataHandler = self.char_data
-        parser.Parse(xml)
+        parser.Parse(xml, True)
         return self.files
-- 
2.43.0


From 0515dd7f253e379058fe4021044876b43a73adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 065/140] fix: NZB dates in the last hour of DST, NUL bytes
 inside entities

---
 usenet/nzb_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index dcc65c2..b693ce1 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -47,11 +47,11 @@ def read_nzb(nzb_file):
 			previous_line = b""
 			nzb_end_tag = False
 			for line in bfile.readlines():
+				# invalid XML characters from NewsLeecher
+				line = re.sub(b"\00", b"", line)
 				line = re.sub(XML_AMP_FIX, b"&amp;", line)
 				LATIN1_OUML = b"\xF6"
 				line = re.sub(b"&ouml;", LATIN1_OUML, line)
-				# invalid XML characters from NewsLeecher
-				line = re.sub(b"\00", b"", line)
 				# <!-- Generated by newsmangler at 2009-05-31 20:42:43 UTC -->
 				# after the comment the NZB closing tag appears twice
 				if b"</nzb>" in line:
@@ -172,7 +172,11 @@ def get_xml(document):
 
 def _date_to_posix(date):
 	""" date: datetime.datetime object """
-	posix = time.mktime(date.timetuple())
+	try:
+		# knows which one of two equal hours is meant when DST ends
+		posix = date.timestamp()
+	except AttributeError:  # Python < 3.3
+		posix = time.mktime(date.timetuple())
 	return str(int(posix))
 
 def add_file(document, nzb_file):
-- 
2.43.0


From 8642d82e2f3e964bbf978b43d4b719659cf017b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 066/140] fix: nzb_merge destroyed the NZB file it had to write
 (bytes into text file), ignored folders outside the working dir

---
 usenet/nzb_merge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/usenet/nzb_merge.py b/usenet/nzb_merge.py
index ff4fdfa..a3e0658 100644
--- a/usenet/nzb_merge.py
+++ b/usenet/nzb_merge.py
@@ -30,7 +30,8 @@ import nzb_utils
 
 def merge_nzbs(nzbdir):
 	nzb_files = [os.path.join(nzbdir, e) for e in os.listdir(nzbdir)
-	             if not os.path.isdir(e) and e[-4:].lower() == ".nzb"]
+	             if not os.path.isdir(os.path.join(nzbdir, e)) and
+	             e[-4:].lower() == ".nzb"]
 	if len(nzb_files) > 1:
 		nzb_files.sort(key=lambda f: len(f))
 
@@ -44,8 +45,9 @@ def merge_nzbs(nzbdir):
 				nzb_utils.add_file(doc, nfile)
 
 		# shortest directory name we will overwrite
-		with open(nzb_files[0], "w") as nzb:
-			nzb.write(nzb_utils.get_xml(doc))
+		xml = nzb_utils.get_xml(doc)
+		with open(nzb_files[0], "wb") as nzb:
+			nzb.write(xml)
 
 		# remove other nzb files
 		for nzbfile in nzb_files[1:]:
@@ -55,7 +57,7 @@ def merge_nzbs(nzbdir):
 def main(options, args):
 	main_dir = os.path.abspath(args[0])
 	for ldir in os.listdir(main_dir):
-		if os.path.isdir(ldir):
+		if os.path.isdir(os.path.join(main_dir, ldir)):
 			merge_nzbs(os.path.join(main_dir, ldir))
 
 if __name__ == '__main__':
-- 
2.43.0


From beae42ed891b156c292b02825d312bccc9556ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 067/140] fix: nzb_split could not write its output and lost
 posts added earlier

---
 usenet/nzb_split.py | 46 ++++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/usenet/nzb_split.py b/usenet/nzb_split.py
index 550fca7..c126271 100644
--- a/usenet/nzb_split.py
+++ b/usenet/nzb_split.py
@@ -187,26 +187,8 @@ def main(options, args):
 			rel = rel.strip("_")
 
 			if rel != current_rel:
-				try:
-					new = os.path.join(output_dir,
-					              current_rel.replace('"', '') + ".nzb")
-					exists = os.path.exists(new)
-					if current_rel and not exists:
-						with open(new, "w") as nzb:
-							doc = nzb_utils.empty_nzb_document()
-							for rfile in reldict.pop(current_rel):
-								nzb_utils.add_file(doc, rfile)
-							nzb.write(nzb_utils.get_xml(doc))
-					elif exists:
-						doc = nzb_utils.empty_nzb_document()
-						for nzbfile in nzb_utils.read_nzb(new):
-							nzb_utils.add_file(doc, nzbfile)
-						with open(new, "w") as nzb:
-							for rfile in reldict.pop(current_rel):
-								nzb_utils.add_file(doc, rfile)
-							nzb.write(nzb_utils.get_xml(doc))
-				except KeyError:
-					pass
+				if current_rel:
+					write_nzb(output_dir, current_rel, reldict.pop(current_rel))
 				current_rel = rel
 
 			files = reldict.setdefault(rel, [])
@@ -216,16 +198,20 @@ def main(options, args):
 			print("Failed: %s" % nzb_file.subject)
 
 	# write out last match
-	try:
-		new = os.path.join(output_dir,
-		                   current_rel.replace('"', '') + ".nzb")
-		with open(new, "w") as nzb:
-			doc = nzb_utils.empty_nzb_document()
-			for rfile in reldict.pop(current_rel):
-				nzb_utils.add_file(doc, rfile)
-			nzb.write(nzb_utils.get_xml(doc))
-	except KeyError:
-		pass
+	for rel in list(reldict):
+		write_nzb(output_dir, rel, reldict.pop(rel))
+
+def write_nzb(output_dir, rel, nzb_files):
+	new = os.path.join(output_dir, rel.replace('"', '') + ".nzb")
+	doc = nzb_utils.empty_nzb_document()
+	if os.path.exists(new):  # add to the files written before
+		for nzb_file in nzb_utils.read_nzb(new):
+			nzb_utils.add_file(doc, nzb_file)
+	for nzb_file in nzb_files:
+		nzb_utils.add_file(doc, nzb_file)
+	xml = nzb_utils.get_xml(doc)
+	with open(new, "wb") as nzb:
+		nzb.write(xml)
 
 def grab_base_name(filename):
 	# "invandraren-walla25.sfv" (1/1)
-- 
2.43.0


From 24e184105c7fdc6ac176cfd8a031762b262d58bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 068/140] fix: write the extracted sample NZB as bytes

---
 usenet/nzb_sample_extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/nzb_sample_extract.py b/usenet/nzb_sample_extract.py
index 5fcbf5d..ebb6c38 100644
--- a/usenet/nzb_sample_extract.py
+++ b/usenet/nzb_sample_extract.py
@@ -109,7 +109,7 @@ def extract_sample(nzb_file, output_dir):
 			os.makedirs(os.path.dirname(snzb_file))
 		except:
 			pass
-		with open(snzb_file, "w") as sample:
+		with open(snzb_file, "wb") as sample:
 			sample.write(nzb_utils.get_xml(sample_nzb))
 
 def main(options, args):
-- 
2.43.0


From 0c5b36db4697a12178beaf363ae6c7d7055bd0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 069/140] fix: nzb_rename overwrote an NZB that got the same
 name

---
 usenet/nzb_rename.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/usenet/nzb_rename.py b/usenet/nzb_rename.py
index dd9d513..0e48215 100644
--- a/usenet/nzb_rename.py
+++ b/usenet/nzb_rename.py
@@ -43,9 +43,12 @@ def main(options, args):
 					odir = os.path.join(output_dir, "music")
 				else:
 					odir = os.path.join(output_dir, "other")
-				shutil.move(f, odir)
-				os.rename(os.path.join(odir, nzb_file),
-						os.path.join(odir, new_name + ".nzb"))
+				new_file = os.path.join(odir, new_name + ".nzb")
+				if os.path.exists(new_file):
+					print("%s not moved: %s already exists." %
+					      (nzb_file, new_file))
+					continue
+				shutil.move(f, new_file)
 			except Exception as e:
 				print(e)
 		else:
-- 
2.43.0


From d5add1675b90f767e066a4015aa41626e5882980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 070/140] fix: don't remove a dot from yEnc lines for a second
 time

---
 usenet/yenc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 7116e4c..dbc3ee7 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -223,9 +223,8 @@ def strip(data):
 	# the NNTP-protocol requires to double a dot in the first colum
 	# when a line is sent - and to detect a double dot (and remove one of them)
 	# when receiving a line.
-	for i in range(len(data)):
-		if data[i].startswith(b'..'):
-			data[i] = data[i][1:]
+	# This must not be done here: the NNTP layer removes that dot already and
+	# lines with encoded data can start with two real dots.
 	return data
 
 """
-- 
2.43.0


From c4baeffd94506d105b046eae0ce0c157ab43fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 071/140] fix: yEnc file names that contain ' part=' or '
 total='

---
 usenet/yenc.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index dbc3ee7..3715d43 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -162,13 +162,11 @@ def yCheck(data):
 	for i in range(10):
 		try:
 			if data[i].startswith(b'=ybegin '):
-				splits = 3
-				if data[i].find(b' part=') > 0:
-					splits += 1
-				if data[i].find(b' total=') > 0:
-					splits += 1
-
-				ybegin = ySplit(data[i], splits)
+				# the name is last and can contain anything
+				header, nkey, name = data[i].partition(b' name=')
+				ybegin = ySplit(header)
+				if nkey:
+					ybegin[b'name'] = name.strip()
 
 				if data[i + 1].startswith(b'=ypart '):
 					ypart = ySplit(data[i + 1])
-- 
2.43.0


From 4bcd412a1c260bb57af1cd6213dd77d7b658354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 072/140] fix: yEnc header without any line behind it is not
 data

---
 usenet/yenc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 3715d43..0051029 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -168,7 +168,7 @@ def yCheck(data):
 				if nkey:
 					ybegin[b'name'] = name.strip()
 
-				if data[i + 1].startswith(b'=ypart '):
+				if b''.join(data[i + 1:i + 2]).startswith(b'=ypart '):
 					ypart = ySplit(data[i + 1])
 					data = data[i + 2:]
 					break
-- 
2.43.0


From 97ef9bd09fa587f44c35cfede1cbca62bb8c7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 073/140] fix: report damaged yEnc headers and short articles
 as yEnc errors

---
 usenet/yenc.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index 0051029..cd66f8e 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -67,20 +67,20 @@ def decode(data, seg_part=False, ignore_crc=False):
 		if not ybegin:
 			print("Non yEnc encoded data found!")
 			found = False
-			for i in range(10):
+			for i in range(min(10, len(data))):
 				if data[i].startswith(b'begin '):
 					found = True
 					break
 			if found:
 				for _ in range(i):
 					data.pop(0)
-			if data[-1] == b'end':
+			if data and data[-1] == b'end':
 				data.pop()
-				if data[-1] == b'`':
+				if data and data[-1] == b'`':
 					data.pop()
 
 			decoded_data = b'\r\n'.join(data)
-			ybegin = {b'size': len(decoded_data), b'name': "UNKNOWN"}
+			ybegin = {b'size': len(decoded_data), b'name': b"UNKNOWN"}
 
 		# Deal with yenc encoded posts
 		elif ybegin and (yend or (not yend and seg_part)):
@@ -128,7 +128,7 @@ def decode(data, seg_part=False, ignore_crc=False):
 
 		# '=ypart begin=400001 end=500000' line can be omitted
 		if not ypart:  # fill it in ourselves
-			ypart = {b'begin': 1, b'end': ybegin[b'size']}
+			ypart = {b'begin': 1, b'end': ybegin.get(b'size', b'')}
 			# in this case are 2 =ybegin parameters 'missing' too:
 			# =ybegin line=128 size=3566 name=k-9-vrs.sfv
 			# part= and total= (but these are optional according to the spec)
@@ -140,16 +140,19 @@ def decode(data, seg_part=False, ignore_crc=False):
 		# {'begin': '1', 'end': '3554'},
 		# {'part': '1', 'pcrc32': '13fca903', 'size': '3554'})
 
-		return {
-			'data': decoded_data,
-			# KeyError: 'part'
-			'part_number': int(ybegin[b'part']),
-			'part_begin': int(ypart[b'begin']),  # in the the joined file
-			'part_end': int(ypart[b'end']),  # counts from 1 onwards
-			'part_size': int(ypart[b'end']) - int(ypart[b'begin']) + 1,
-			'file_size': int(ybegin[b'size']),
-			'file_name': ybegin[b'name'],
-		}
+		try:
+			return {
+				'data': decoded_data,
+				# KeyError: 'part'
+				'part_number': int(ybegin[b'part']),
+				'part_begin': int(ypart[b'begin']),  # in the the joined file
+				'part_end': int(ypart[b'end']),  # counts from 1 onwards
+				'part_size': int(ypart[b'end']) - int(ypart[b'begin']) + 1,
+				'file_size': int(ybegin[b'size']),
+				'file_name': ybegin[b'name'],
+			}
+		except (KeyError, ValueError) as error:
+			raise YencException("Corrupt yEnc header: %s" % error)
 	else:
 		raise YencException("No data available to decode.")
 
-- 
2.43.0


From fe3308081f590f6b1dd8354a323216eddb253c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 074/140] fix: decode all yEnc escapes

---
 usenet/yenc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index cd66f8e..e1ed24a 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -55,6 +55,11 @@ class YencException(Exception):
 
 YDEC_TRANS = bytearray(range(256 - 42, 256)) + bytearray(range(256 - 42))
 
+YESC_RE = re.compile(b'=(.)', re.DOTALL)
+
+def unescape(match):
+	return bytes(bytearray(((ord(match.group(1)) - 64) % 256,)))
+
 def decode(data, seg_part=False, ignore_crc=False):
 	data = strip(data)
 	# No point in continuing if we don't have any data left
@@ -93,10 +98,8 @@ def decode(data, seg_part=False, ignore_crc=False):
 				partcrc = (crc ^ -1) & 0xFFFFFFFF
 			else:
 				data = b''.join(data)
-				for i in (0, 9, 10, 13, 27, 32, 46, 61):
-					j = b'=' + bytearray((i + 64,))
-					i = bytearray((i,))
-					data = data.replace(j, i)
+				# any character can be escaped
+				data = YESC_RE.sub(unescape, data)
 				decoded_data = data.translate(YDEC_TRANS)
 				if not seg_part:
 					crc = crc32(decoded_data)
-- 
2.43.0


From d477bc3399a0f048b01b45fbee328a68d0359eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 075/140] fix: reading more than is left of a file on Usenet
 returns what is left

---
 usenet/srr_usenet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 113f135..a675aaf 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -782,6 +782,9 @@ class NNTPFile(io.IOBase):
 			read_to_end = True
 			size = self._file_size - self._current_position
 			assert size > -1
+		elif not self.is_rar:
+			# RAR: the IndexError below indicates that the data is bad
+			size = min(size, self._file_size - self._current_position)
 		# check for the last segment we need to get
 		(end_part, end_offset) = self._which_segment(
 		                             self._current_position + size)
-- 
2.43.0


From 3a0f4a6f61951daa4832c0975c9c6aa7f1ed35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 076/140] fix: articles without Lines header

---
 usenet/srr_usenet.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index a675aaf..d3d90b8 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -815,8 +815,7 @@ class NNTPFile(io.IOBase):
 					lines = 0  # 'Lines: 6103'
 					try:  # Python 3
 						# [resp, ArticleInfo(number, message_id, lines)]
-						[_resp, [_article_number, _msg_id, lines]] = result
-						headers = lines
+						[_resp, [_article_number, _msg_id, headers]] = result
 					except ValueError:  # Python < 3
 						headers = result[3]
 					for hline in headers:
-- 
2.43.0


From fafc50ca7312035b4942d99cc4404d6e0ba3a2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 077/140] fix: don't use partly downloaded Usenet segments as
 complete ones

---
 usenet/srr_usenet.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index d3d90b8..6b536dc 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -309,6 +309,7 @@ class NNTPFile(io.IOBase):
 		self.nzb_file = nzb_file
 		self.segments = {}
 		self.data = {}  # the actual data of the segment
+		self.partial = set()  # segments with only their first lines in data
 		self.group = False  # Send GROUP command before grabbing segment
 
 		self.nb_segments = 0  # highest number defined in the NZB
@@ -352,6 +353,7 @@ class NNTPFile(io.IOBase):
 		#    => it does for PS3 releases with hundreds of separate files
 
 		self.data = {}
+		self.partial = set()
 		self._file_size = 0
 		self._current_position = 0
 		self._segment_size_first = 0
@@ -558,6 +560,10 @@ class NNTPFile(io.IOBase):
 
 		self.segments[pnumber].decoded_size = dpart['part_size']
 		self.data[pnumber] = dpart['data']
+		if nb_lines > 1 and len(dpart['data']) < dpart['part_size']:
+			self.partial.add(pnumber)
+		else:
+			self.partial.discard(pnumber)
 
 	def tell(self):
 		"""Return the current stream position."""
@@ -844,6 +850,9 @@ class NNTPFile(io.IOBase):
 					# minimum size split archives used is 15 million bytes
 # 					and self._current_position > 10000000):
 					spart_offset = do_magic(spart_offset, i)
+			elif i in self.partial and i != end_part and i != 1:
+				# an earlier read only needed the begin of this segment
+				self.grab_segment(self.segments[i].message_id)
 
 			# in rare cases the data array is empty
 			if not len(self.data[i]):
-- 
2.43.0


From 71b9c4627daf7202bda6f22aa82f1742d40b6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 078/140] fix: STAT on the other servers when the first one
 misses the last segment

---
 usenet/srr_usenet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 6b536dc..57be538 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1061,13 +1061,13 @@ class NNTPFile(io.IOBase):
 							if self.group:
 								for group in self.nzb_file.groups:
 									try:
-										self.server.group(group)
+										s.group(group)
 										continue
 									except nntplib.NNTPTemporaryError as error:
 										pass
 										# print(error)
 
-							(resp, _nr, _id) = self.server.stat("<%s>" %
+							(resp, _nr, _id) = s.stat("<%s>" %
 								self.segments[self.nb_segments].message_id)
 							if resp.startswith("223 "):
 								s.quit()
-- 
2.43.0


From 8c9b1d7e3d3f9ee68b3026d132d8acb713a77bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 079/140] fix: pyrescene.py: ignore --vobsub-srr when unrar is
 not installed

---
 bin/pyrescene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index ec0efd2..200ee66 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -133,7 +133,8 @@ def get_unrar():
 	return unrar_executable
 
 def unrar_is_available():
-	return os.path.isfile(os.path.abspath(get_unrar()))
+	unrar = get_unrar()
+	return bool(unrar) and os.path.isfile(os.path.abspath(unrar))
 
 def can_create(always_yes, path):
 	retvalue = True
-- 
2.43.0


From 43a1da07b06df06a4efaf9098f048ef82d00029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 080/140] fix: pyrescene.py: a file can match both --skip and
 --skip-regex

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 200ee66..61d5aab 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1236,7 +1236,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 		if os.path.basename(cfile) in options.skip_list:
 			print("Skipped over stored file: %s" % os.path.basename(cfile))
 			copied_files.remove(cfile)
-		if options.skip_regex:
+		elif options.skip_regex:
 			retestpath = os.path.relpath(cfile, working_dir)
 			if skipre.match(retestpath):
 				copied_files.remove(cfile)
-- 
2.43.0


From 68fd99e7b1edc73c0dfa6a5bf704a22ba9242c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 081/140] fix: pyrescene.py: --skip-list adds to --skip

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 61d5aab..4cd922a 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1691,7 +1691,7 @@ def main(argv=None):
 			print("The list of files to skip, could not be found.")
 			return 1  # failure
 		with open(options.skip_file, 'r') as skiplist:
-			options.skip_list = skiplist.read().splitlines()
+			options.skip_list += skiplist.read().splitlines()
 	if options.skip_regex:
 		global skipre
 		try:
-- 
2.43.0


From c06e038dad9902d72b58ae995f9f930da9ff0c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 082/140] fix: pyrescene.py: only the release decides what
 samples and proofs are

---
 bin/pyrescene.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 4cd922a..e2edae2 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -177,6 +177,12 @@ def get_files_list(release_dir, extension_list):
 		# TypeError: must be (buffer overflow), not str
 		return matches
 
+def release_path(path, reldir):
+	"""Path starting with the release name: the folders where the release
+	is located don't say anything about what the file is."""
+	reldir = os.path.abspath(reldir)
+	return os.path.relpath(path, os.path.dirname(reldir))
+
 def get_sample_files(reldir):
 	sample_files = get_files_list(reldir, FileType.VideoExtensions)
 
@@ -185,7 +191,7 @@ def get_sample_files(reldir):
 	for sample in sample_files:
 		# sample folder or 'sample' in the name
 		# or a musicvideo file (SFV with same name)
-		if ("sample" in sample.lower() or
+		if ("sample" in release_path(sample, reldir).lower() or
 		    os.path.exists(sample[:-4] + ".sfv")):
 			result.append(sample)
 		else:
@@ -226,7 +232,7 @@ def get_proof_files(reldir, more_images=False):
 
 	result = filter_proof_image_files(
 		image_files, rar_files, reldir, more_images)
-	result += filter_proof_rar_files(rar_files)
+	result += filter_proof_rar_files(rar_files, reldir)
 
 	return result
 
@@ -235,7 +241,7 @@ def filter_proof_image_files(image_files, rar_files, reldir, more_images):
 	for proof in image_files:
 		# images in Sample, Proof and Cover(s) subdirs are ok
 		# others need to contain the word proof in their path
-		lproof = proof.lower()
+		lproof = release_path(proof, reldir).lower()
 		if ("proof" in lproof or "sample" in lproof or
 			os.sep + "cover" in lproof or
 			os.sep + "screenshots" in lproof or
@@ -339,12 +345,13 @@ def collect_known_good_filenames(reldir, rar_files):
 				 get_files(reldir, "*.m3u") + rar_files)
 	return (os.path.basename(good_name)[:-4] for good_name in checklist)
 
-def filter_proof_rar_files(rar_files):
+def filter_proof_rar_files(rar_files, reldir):
 	include_in_srr = []
 	for proof in rar_files:
 		# RAR file must contain image file
 		# Space.Dogs.3D.2010.GERMAN.1080p.BLURAY.x264-HDViSiON (bmp proof)
-		if "proof" in proof.lower() and has_stored_proof_ext(proof):
+		if ("proof" in release_path(proof, reldir).lower() and
+			has_stored_proof_ext(proof)):
 			include_in_srr.append(proof)
 	return include_in_srr
 
-- 
2.43.0


From 57c0e2d15d2633b494374f44feaff65edf40aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 083/140] fix: pyrescene.py: a VOB sample without SRS

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index e2edae2..b236532 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1079,7 +1079,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 			sys.stderr = original_stderr
 
 		# create srr if it was a rared vob
-		if srs_result and sample.endswith(".vob"):
+		if os.path.isfile(srs_result) and sample.lower().endswith(".vob"):
 			# can be useful to show the actual RAR that was used,
 			# based on the info stored in the archive end block
 			sinfo = sample_class_factory(file_type_info(srs_result).file_type)
-- 
2.43.0


From 2ca55b84cb91ec771d1aa7146c83771a454cef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 084/140] fix: pyrescene.py: notice all samples with the same
 base name

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index b236532..9da2bf8 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -984,7 +984,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 	# .mkv and .m2ts samples could have the same .srs name: prevent this
 	same_srs_name = []
 	rbase = lambda x: os.path.relpath(x, reldir).rsplit(".", 1)[0]
-	for (name, group) in itertools.groupby(map(rbase, media_files)):
+	for (name, group) in itertools.groupby(sorted(map(rbase, media_files))):
 		if len(list(group)) > 1:
 			same_srs_name.append(name)
 
-- 
2.43.0


From 58e003a3724b702901e07f1a4fb2122c1345a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 085/140] fix: use the file with the exact name when casings
 differ

---
 rescene/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/utility.py b/rescene/utility.py
index e4e49de..455570f 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -556,7 +556,8 @@ def capitalized_fn(afile):
 		if (cfile.lower() == inputfn.lower() and
 		    os.path.isfile(os.path.join(inputdir, cfile))):
 			exact = os.path.join(inputdir, cfile)
-			break
+			if cfile == inputfn:
+				break  # always preferred over other casings of the name
 
 	# 2) use proper capitalization on both OSes
 	# - choose the one with capitals
-- 
2.43.0


From 2cdd57bc7c20e530fd61529edddd186f21088d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 086/140] fix: pyrescene.py: letter case of RARs in a proof
 folder

---
 bin/pyrescene.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 9da2bf8..ab3fa8c 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -504,7 +504,9 @@ def remove_unwanted_sfvs(sfv_list, release_dir):
 			sfvfiles = rescene.utility.parse_sfv_file(sfv)[0]
 			if len(sfvfiles) == 1:
 				rar = os.path.join(os.path.dirname(sfv), sfvfiles[0].file_name)
-				if not rar.endswith(".rar"):
+				if os.path.isdir(os.path.dirname(rar)):
+					rar = capitalized_fn(rar)[0]
+				if not rar.lower().endswith(".rar"):
 					continue  # e.g. .sfv for proof file
 				if os.path.isfile(rar):
 					skip = False
-- 
2.43.0


From e9d01808e672308ce928ef25394be40b0e8c8304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 087/140] fix: pyrescene.py: no SRR for a stored proof RAR with
 other casing

---
 bin/pyrescene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index ab3fa8c..00840ed 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1146,7 +1146,8 @@ def generate_srr(reldir, working_dir, options, mthread):
 			skip = False
 			# not for Proof RARs that are already stored inside the SRR
 			for cfile in copied_files:
-				if cfile.endswith((os.path.basename(esfv)[:-3] + "rar")):
+				erar = os.path.basename(esfv)[:-3] + "rar"
+				if cfile.lower().endswith(erar.lower()):
 					skip = True
 					break
 			# not for dirfix releases moved to the main folder
-- 
2.43.0


From 2fa0c41eb7fee580bb277090e063fd0ed0c63030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 088/140] fix: pyrescene.py: match tracks with the SFV of their
 own disc

---
 bin/pyrescene.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 00840ed..fbc4d5a 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1200,10 +1200,13 @@ def generate_srr(reldir, working_dir, options, mthread):
 		copied_files.sort(key=key_sort_music_files)
 
 		# don't add files that fail sfv
+		# (tracks on different discs can have the same name)
 		crclist = {}
 		for sfv in sfvs:
+			sfv_dir = os.path.relpath(os.path.dirname(sfv), reldir)
 			for sfvf in rescene.utility.parse_sfv_file(sfv)[0]:
-				crclist[sfvf.file_name.lower()] = sfvf.crc32
+				path = os.path.join(sfv_dir, sfvf.file_name)
+				crclist[os.path.normpath(path).lower()] = sfvf.crc32
 
 		to_remove = []
 		for stored_file in copied_files:
@@ -1213,7 +1216,12 @@ def generate_srr(reldir, working_dir, options, mthread):
 						file_type_info(stored_file).file_type)
 					srs_data, _tracks = sample.load_srs(stored_file)
 					# accept SRS if it isn't in the SFV
-					crc = int(crclist.get(srs_data.name.lower(), "-1"), 16)
+					srs_name = srs_data.name.lower()
+					srs_dir = os.path.dirname(
+						os.path.relpath(stored_file, working_dir))
+					crc = crclist.get(os.path.join(srs_dir.lower(), srs_name),
+					                  crclist.get(srs_name, "-1"))
+					crc = int(crc, 16)
 					if srs_data.crc32 != crc and crc != -1:
 						to_remove.append(stored_file)
 						logging.critical("%s: SFV verification failed for %s."
-- 
2.43.0


From 0a7fe212e6522c7751adf5c8da54d91797716e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 089/140] fix: pyrescene.py: only skip real subfolders of a
 release

---
 bin/pyrescene.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index fbc4d5a..c5029c5 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1311,13 +1311,12 @@ def get_release_directories(path):
 			print(dirpath)
 			print(dirnames)
 			print(filenames)
-		if (last_release in dirpath and last_release and
-			# keep release names that start with the same string,
-			# so that they won't be skipped
-			# e.g.  ReleaseName-CUTG
-			#       ReleaseName-CUTGRP
-			# (subdirs have a separator more)
-			dirpath.rfind(os.sep) != last_release.rfind(os.sep)):
+		# keep directories with names that start with the same string,
+		# so that they (or releases in there) won't be skipped
+		# e.g.  ReleaseName-CUTG
+		#       ReleaseName-CUTGRP
+		if (last_release and
+			dirpath.startswith(os.path.join(last_release, ""))):
 			continue  # subfolders of a found release
 
 		if is_release(dirpath, dirnames, filenames):
-- 
2.43.0


From 1031c3ba323720f65f0ff6b06877f7e584fa77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 090/140] fix: pyrescene.py: always remove the temporary
 directory

---
 bin/pyrescene.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index c5029c5..282dda7 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1678,6 +1678,7 @@ def main(argv=None):
 		unrar = get_unrar()
 		if not unrar_is_available():
 			print("UnRAR is required for vobsub .srr creation.")
+			shutil.rmtree(working_dir, ignore_errors=True)
 			return 1
 		sfv = os.path.abspath(options.vobsubs)
 		try:
@@ -1700,12 +1701,15 @@ def main(argv=None):
 			# No RAR5 support yet
 			logging.warning("{0}: {1}".format(str(e), sfv))
 			return 1  # failure (no .srr created)
+		finally:
+			shutil.rmtree(working_dir, ignore_errors=True)
 
 	if not options.skip_list:
 		options.skip_list = []
 	if options.skip_file:
 		if not os.path.isfile(options.skip_file):
 			print("The list of files to skip, could not be found.")
+			shutil.rmtree(working_dir, ignore_errors=True)
 			return 1  # failure
 		with open(options.skip_file, 'r') as skiplist:
 			options.skip_list += skiplist.read().splitlines()
@@ -1722,6 +1726,7 @@ def main(argv=None):
 			print("Some examples: (case always ignored)")
 			print(r"\t^.*/sitename\.nfo$")
 			print(r"\t^sample/.*\._s.jpg$")
+			shutil.rmtree(working_dir, ignore_errors=True)
 			return 1  # failure
 
 	drive_letters = []
-- 
2.43.0


From 9e0a172f2aafbfac6d0c4f993feb04ef0878062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 091/140] fix: pyrescene.py: each vobsub SRR only gets its own
 languages

---
 bin/pyrescene.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 282dda7..a6a0a0d 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -693,6 +693,8 @@ def create_srr_for_subs(unrar, sfv, working_dir, release_dir):
 		pass  # the path already exists
 
 	idx_lang = os.path.join(working_dir, "languages.diz")
+	if os.path.isfile(idx_lang):
+		os.unlink(idx_lang)  # languages of previous vobsubs
 
 	# recursively create SRR and extract RARs
 	def extract_and_create_srr(folder, srr_out=None, first_rars=None):
-- 
2.43.0


From d4a44793e9050e5b52f72fd659860cd5df43cff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 092/140] fix: srr -z: exit code 1 when the folder has no RAR
 executables

---
 rescene/srr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 93e0c79..0ccb1bd 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -312,11 +312,13 @@ def manage_srr(options, in_folder, infiles, working_dir):
 		rar_mt.mt_max = options.mt_max
 
 		try:
-			rescene.reconstruct(infiles[0], in_folder, out_folder, save_paths,
-			                    hints, options.no_auto_crc,
+			result = rescene.reconstruct(infiles[0], in_folder, out_folder,
+			                    save_paths, hints, options.no_auto_crc,
 			                    options.auto_locate, options.fake,
 			                    options.rar_executable_dir, options.temp_dir,
 			                    options.volume is None, options.volume, rar_mt)
+			if result is False:  # no RAR executables in the -z folder
+				return 1
 		except (FileNotFound, RarNotFound) as err:
 			mthread.done = True
 			mthread.join()
-- 
2.43.0


From 3fe7454262b05e8f8feb99fd6ec1c9fb6ee877c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 093/140] fix: rebuild sets of RAR 2.0x: UnboundLocalError for
 rarexe

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 43a5db3..0c5082d 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2493,7 +2493,7 @@ class CompressedRarFile(io.IOBase):
 		for rar in repository.get_rar_executables(self.get_most_recent_date()):
 			_fire(MsgCode.MSG, message="Trying %s." % rar)
 			args.set_rar2_flags(re.search(r'_rar2', rar.path()) is not None)
-			args.set_rar4_flags(re.search(r'_rar[56]', rarexe.path()) is not None)
+			args.set_rar4_flags(re.search(r'_rar[56]', rar.path()) is not None)
 			found = False
 			if rar.supports_setting_threads():
 				while args.increase_thread_count(rar):
-- 
2.43.0


From 03ea21d626efc3046d76707ce57801fd679a351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 094/140] fix: solid archives: compare with the packed size
 over all volumes

---
 rescene/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 0c5082d..fb19519 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2569,14 +2569,15 @@ class CompressedRarFile(io.IOBase):
 		# this happens with solid archives when the first file is small
 		# an .idx file is detected as having -mt1, but the .sub file can
 		# need 4 threads
-		if self.rarstream.length() != block.packed_size:
+		packed_size = get_full_packed_size(block, self.blocks)
+		if self.rarstream.length() != packed_size:
 			_fire(MsgCode.MSG, message="Solid archive recompression.")
-			while(self.rarstream.length() != block.packed_size and 
+			while(self.rarstream.length() != packed_size and 
 				self.good_rar.supports_setting_threads() and
 				self.good_rar.args.increase_thread_count(self.good_rar)):
 				compress()
 			
-		if self.rarstream.length() != block.packed_size:
+		if self.rarstream.length() != packed_size:
 			raise ValueError("Something isn't right yet.")
 		
 	def get_most_recent_date(self):
-- 
2.43.0


From 6d737841184539542aef5e1f002e39a2e2bcc8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 095/140] fix: solid archives: directories and empty files are
 not compressed

---
 rescene/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index fb19519..1832dd5 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2139,6 +2139,8 @@ def followed_by_solid_block(block, blocks):
 			start = True
 			continue
 		if start:
+			if bl.unpacked_size == 0:  # a directory or empty file
+				continue
 			if bl.flags & block.SOLID:
 				return bl
 			else:
-- 
2.43.0


From 17ccbbb3c1afefe02ab6c2678e47a009ef7aa8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 096/140] fix: solid archives: a stored or empty first file
 isn't the one to start from

---
 rescene/main.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 1832dd5..cfbedd9 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2094,18 +2094,19 @@ def compressed_rar_file_factory(block, blocks, src,
 			                         followup, followup_src, solid=True)
 			
 		if block.flags & block.SOLID:
-			# get first file from archive
-			if block != blocks[0]:
+			# get first file from archive that isn't stored or empty
+			first_name = first_compressed_block(blocks).file_name
+			if block.file_name != first_name:
 				if not followup:
 					# reuse CompressedRarFile because of the solid archive
-					rar = archived_files[blocks[0].file_name]
+					rar = archived_files[first_name]
 					rar.set_new(src, block)
 					return rar
 				else:
 					followup_src = _locate_file(followup, 
 					                   in_folder, hints, auto_locate_renamed)
 					# reuse CompressedRarFile because of the solid archive
-					rar = archived_files[blocks[0].file_name]
+					rar = archived_files[first_name]
 					rar.set_new(src, block, followup_src)
 					return rar
 		
@@ -2132,6 +2133,12 @@ def compressed_rar_file_factory(block, blocks, src,
 		else:
 			raise
 
+def first_compressed_block(blocks):
+	for bl in blocks:
+		if bl.is_compressed():
+			return bl
+	return blocks[0]
+
 def followed_by_solid_block(block, blocks):
 	start = False
 	for bl in blocks:
-- 
2.43.0


From 72000c5a4eeaea61b8a0c0920c9b8dcada76e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 097/140] fix: solid archives: serve the right file when the
 next one is compressed along

---
 rescene/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index cfbedd9..bc7c053 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2571,8 +2571,9 @@ class CompressedRarFile(io.IOBase):
 				_fire(MsgCode.MSG, message=
 					RETURNCODE[compress.returncode])
 	
+			# not the last one of source_files: that can be the next file
 			self.rarstream = RarStream(out, compressed=True,
-				packed_file_name=os.path.basename(self.source_files[-1]))
+				packed_file_name=os.path.basename(source_file))
 		compress()
 		
 		# this happens with solid archives when the first file is small
-- 
2.43.0


From b4acb1f6482b7e1a83934e28e06bc032188dfa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 098/140] fix: rebuild compressed: remove every temp dir and
 forget earlier rebuilds

---
 rescene/main.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index bc7c053..e20bdb1 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1248,6 +1248,21 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 	srr_part: string with volume(s) to reconstruct
 	rar_mt: object with settings for the rar -mt parameter
 	"""
+	global regular_method_failed
+	# what an earlier reconstruction found is about other files
+	archived_files.clear()
+	regular_method_failed = False
+	try:
+		return _reconstruct(srr_file, in_folder, out_folder, extract_paths,
+			hints, skip_rar_crc, auto_locate_renamed, empty,
+			rar_executable_dir, tmp_dir, extract_files, srr_part, rar_mt)
+	finally:
+		temp_folder_cleanup()
+
+def _reconstruct(srr_file, in_folder, out_folder, extract_paths, hints,
+				skip_rar_crc, auto_locate_renamed, empty,
+				rar_executable_dir, tmp_dir, extract_files,
+				srr_part, rar_mt):
 	rar_name = None
 	ofile = ""
 	source_name = None
@@ -1446,8 +1461,6 @@ def reconstruct(srr_file, in_folder, out_folder, extract_paths=True, hints={},
 		rarfs.close()
 	if srcfs:
 		srcfs.close()
-		
-	temp_folder_cleanup()
 
 def _write_recovery_record(block, rarfs):
 	"""block: original rar recovery block from SRR
@@ -1766,6 +1779,7 @@ archived_files = {}
 repository = None
 temp_dir = None
 working_temp_dir = None
+temp_directories = []  # all of those made for the current reconstruction
 regular_method_failed = False
 
 class EmptyRepository(Exception):
@@ -1776,18 +1790,15 @@ class RarNotFound(Exception):
 	
 def get_temp_directory():
 	global temp_dir
-	if temp_dir and os.path.isdir(temp_dir):
-		return mkdtemp(prefix="SRR-", dir=temp_dir)
-	return mkdtemp(prefix="SRR-")
+	parent = temp_dir if temp_dir and os.path.isdir(temp_dir) else None
+	temp_directories.append(mkdtemp(prefix="SRR-", dir=parent))
+	return temp_directories[-1]
 
 def temp_folder_cleanup():
-	"""Temp directory cleanup op the second compressed reconstruction
-	method."""
-	try:
-		if os.path.isdir(working_temp_dir):
-			shutil.rmtree(working_temp_dir)
-	except TypeError:
-		pass
+	"""Removes all temp directories that are made while reconstructing
+	compressed RAR files."""
+	while temp_directories:
+		shutil.rmtree(temp_directories.pop(), ignore_errors=True)
 	
 def get_rar_data_object(block, blocks, src,
 	                    in_folder, hints, auto_locate_renamed):
-- 
2.43.0


From ffde0266edb79db6b464ed77ee52fa6edf07668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 099/140] fix: rebuild compressed: check the CRC of the
 extracted file

---
 rescene/main.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index e20bdb1..d6b73a7 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1398,6 +1398,8 @@ def _reconstruct(srr_file, in_folder, out_folder, extract_paths, hints,
 							_fire(MsgCode.MSG,
 								message="Trying to rebuild compressed file %s."
 								% block.file_name)
+							if not skip_rar_crc:
+								_check_source_crc(block, blocks, src)
 							srcfs = get_rar_data_object(block, blocks, src,
 										in_folder, hints, auto_locate_renamed)
 							compressed_block_encountered = srcfs
@@ -1636,6 +1638,27 @@ def _repack(block, rarfs, in_folder, srcfs, running_crc, skip_rar_crc):
 			
 	return running_crc
 
+def _check_source_crc(block, blocks, src):
+	"""The CRC of the extracted file is stored with its last part.
+	While repacking, it can't be checked with compressed data."""
+	last = None
+	for part in get_archived_file_blocks(blocks, block):
+		if part == block or (last and part.file_name == block.file_name):
+			last = part
+			if not part.flags & part.SPLIT_AFTER:
+				break
+	crc = 0
+	with open(src, "rb") as source:
+		data = source.read(0x10000)
+		while data:
+			crc = zlib.crc32(data, crc)
+			data = source.read(0x10000)
+	if (last and not last.flags & last.SPLIT_AFTER and
+		last.file_crc != crc & 0xffffffff):
+		_fire(MsgCode.CRC,
+		      message="CRC mismatch in file: %s" % block.file_name)
+		print("%08x %08x" % (last.file_crc, crc & 0xffffffff), src)
+
 def _flag_check_srr(block):
 	"""Checks whether or not the given block has flags set that are not
 	supported by this application."""
-- 
2.43.0


From eca6fc9376994aaf6668852882b2f31783cd396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 100/140] fix: rebuild compressed: look for the name on disk in
 the new archive

---
 rescene/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index d6b73a7..86c0a30 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2341,7 +2341,7 @@ class CompressedRarFile(io.IOBase):
 		out = os.path.join(self.temp_dir, self.COMPRESSED_NAME)
 		try:
 			self.rarstream = RarStream(out, compressed=True, 
-				packed_file_name=os.path.basename(first_block.file_name))
+				packed_file_name=os.path.basename(src))
 		except AttributeError:
 			# -r parameter is used to find the file to compress
 			# that renamed file is inside the RAR
@@ -2744,6 +2744,7 @@ class CompressedRarFileAll(io.IOBase):
 		self.current_block = block
 		self.COMPRESSED_NAME = "pyReScene_method2.rar"
 		self.rarstream = None
+		self.search_options = search_options
 		
 		global working_temp_dir
 		working_temp_dir = get_temp_directory()
@@ -2806,7 +2807,8 @@ class CompressedRarFileAll(io.IOBase):
 		if not (block.flags & RarPackedFileBlock.DIRECTORY 
 		    == RarPackedFileBlock.DIRECTORY):
 			self.rarstream = RarStream(out, compressed=True, 
-				packed_file_name=os.path.basename(block.file_name))
+				packed_file_name=os.path.basename(
+					_locate_file(block, *self.search_options)))
 			self.rarstream.seek(0, os.SEEK_END)
 			# test if file size match, otherwise try compressing again
 			if get_full_packed_size(block, 
-- 
2.43.0


From 87042497d7d1f476e624c3c995fec5c5e9ba07e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 101/140] fix: rebuild compressed: try the next RAR version
 when one makes no archive

---
 rescene/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rescene/main.py b/rescene/main.py
index 86c0a30..7e12ad7 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2466,6 +2466,8 @@ class CompressedRarFile(io.IOBase):
 				_fire(MsgCode.MSG, message=RETURNCODE[compress.returncode])
 
 			# check if this is a good RAR version
+			if not os.path.isfile(out):
+				return False
 			start = size_min
 			ps = crc = 0
 			pfn = os.path.basename(args.store_files[0])
-- 
2.43.0


From a121e690a15017d7644fc4f6ec938493c8d86139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 102/140] fix: --mt-set: try all of the given thread counts, in
 any order

---
 rescene/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 7e12ad7..741773d 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1999,7 +1999,7 @@ class RarArguments(object):
 
 		if not self.threads:
 			if self.mt_settings.mt_set:
-				for count in self.mt_settings.mt_set:
+				for count in sorted(self.mt_settings.mt_set):
 					in_range = mt_min <= count <= mt_max and count <= mtcount
 					if in_range:
 						self.threads = "-mt%d" % count
@@ -2013,7 +2013,7 @@ class RarArguments(object):
 		else:
 			current_count = self.thread_count()
 			if self.mt_settings.mt_set:
-				for count in self.mt_settings.mt_set:
+				for count in sorted(self.mt_settings.mt_set):
 					in_range = (mt_min <= count <= mt_max and 
 					            count <= mtcount and
 					            count > current_count)
-- 
2.43.0


From bda4cbf11ac42bda39fda41b1b5826392cd303a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 103/140] fix: no CRC warnings for volumes of RAR 2.0x, which
 have no CRC

---
 rescene/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 741773d..47fbcb2 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1624,7 +1624,9 @@ def _repack(block, rarfs, in_folder, srcfs, running_crc, skip_rar_crc):
 			return block.file_crc != running_crc & 0xffffffff
 
 		# CRC check of file in the volume (last volume is across all of them)
-		if not file_end() and block.file_crc != file_crc & 0xffffffff:
+		# (old RAR versions only store the latter one)
+		if (not file_end() and block.file_crc != 0xffffffff and
+			block.file_crc != file_crc & 0xffffffff):
 			msg = "CRC mismatch in RAR volume: %s" % rarfs.name
 			_fire(MsgCode.CRC, message=msg)
 			print("%08x %08x" % (block.file_crc, file_crc & 0xffffffff), 
-- 
2.43.0


From b2a3339c48258c94bf3463648255ebbf831e1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 104/140] fix: rebuild compressed: a directory before the file

---
 rescene/main.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 47fbcb2..22dfbb8 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2559,9 +2559,8 @@ class CompressedRarFile(io.IOBase):
 				print("Testing with previous file")
 				# try compressing with the previous rar file before it
 				prev = get_previous_block()
-				if prev:
-					prev_file = archived_files[prev.file_name]
-					
+				prev_file = archived_files.get(prev.file_name) if prev else None
+				if prev_file:  # no directory
 					args.set_extra_files_before([prev_file.source_files[-1]])
 					
 					if rar.supports_setting_threads():
-- 
2.43.0


From 4046ffe2c3c6b06c241ce3c55c10c1aa85958846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 105/140] fix: rebuild compressed: the next file isn't the next
 part of the same file

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 22dfbb8..2f9e332 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2196,7 +2196,7 @@ def next_block(block, blocks):
 		if bl == block:
 			start = True
 			continue
-		if start:
+		if start and bl.file_name != block.file_name:
 			return bl
 	return None
 
-- 
2.43.0


From dcb35601c7e08e6e79d339874bcdd263987f4ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 106/140] fix: rebuild compressed: add the next file for all
 RAR versions

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 2f9e332..5cf336b 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2574,7 +2574,7 @@ class CompressedRarFile(io.IOBase):
 						rar.args = args
 						return rar
 
-			args.reset_extra_files()			
+			args.set_extra_files_before([])  # keeps the next file
 			args.threads = ""
 
 		if using_piece:
-- 
2.43.0


From d1f02af14a0191900312377ef25ff509da73d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 107/140] fix: rebuild compressed: the second method is for one
 set

---
 rescene/main.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rescene/main.py b/rescene/main.py
index 5cf336b..b36be99 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2103,7 +2103,7 @@ class RarArguments(object):
 def compressed_rar_file_factory(block, blocks, src,
 	                            in_folder, hints, auto_locate_renamed):
 	global regular_method_failed
-	if regular_method_failed:
+	if regular_method_failed and block in regular_method_failed.blocks:
 		regular_method_failed.set_file(block)
 		return regular_method_failed
 	
@@ -2809,9 +2809,12 @@ class CompressedRarFileAll(io.IOBase):
 		# otherwise AttributeError: File not found in the archive.
 		if not (block.flags & RarPackedFileBlock.DIRECTORY 
 		    == RarPackedFileBlock.DIRECTORY):
-			self.rarstream = RarStream(out, compressed=True, 
-				packed_file_name=os.path.basename(
-					_locate_file(block, *self.search_options)))
+			try:
+				self.rarstream = RarStream(out, compressed=True, 
+					packed_file_name=os.path.basename(
+						_locate_file(block, *self.search_options)))
+			except AttributeError:  # File not found in the archive
+				return self.try_again(block)
 			self.rarstream.seek(0, os.SEEK_END)
 			# test if file size match, otherwise try compressing again
 			if get_full_packed_size(block, 
-- 
2.43.0


From 2546f9ac556de57280a8d70afcaa303bee4e287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 108/140] fix: rebuild compressed: CRC of the file itself, not
 of the one before it

---
 rescene/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index b36be99..458adbc 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -2490,13 +2490,15 @@ class CompressedRarFile(io.IOBase):
 					if old:
 						for bl in rr:
 							if (bl.rawtype == BlockType.RarPackedFile
+							and bl.file_name == pfn
 							and 0xFFFFFFFF != bl.file_crc):
 								crc = bl.file_crc
 								ps = bl.packed_size # works because one big RAR
 								break
 					else:
 						for bl in rr:
-							if bl.rawtype == BlockType.RarPackedFile:
+							if (bl.rawtype == BlockType.RarPackedFile
+							and bl.file_name == pfn):
 								crc = bl.file_crc
 								break
 					rr.close()
-- 
2.43.0


From f1188b65d4489431bc3e55447596a6812c679e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 109/140] fix: srs: try every match when no track has a certain
 offset

---
 resample/srs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resample/srs.py b/resample/srs.py
index 4d6d8e7..ccf374a 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -162,6 +162,14 @@ def find_best_educated_guesses(tracks, cut_data):
 	offsets_good_tracks = [t.match_offset for t in tracks.values()
 	                       if t.track_number not in cut_data
 	                       or not len(cut_data[t.track_number])]
+	if not offsets_good_tracks:
+		# nothing to compare with: every match is possible
+		for track_id in cut_data:
+			offset = tracks[track_id].match_offset
+			tracks[track_id].olist = [offset] + [
+				o for o in cut_data[track_id] if o != offset]
+		return
+
 	min_offset = min(offsets_good_tracks)
 	max_offset = max(offsets_good_tracks)
 
-- 
2.43.0


From ed43f424adac01cbf64f927f3c548e59fe165141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:27 +0000
Subject: [PATCH 110/140] fix: srs: look for other x265 offsets in the whole
 main file

---
 resample/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index 9f1471c..c574e69 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2449,7 +2449,8 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 				tracks_done = False
 				break
 
-		done = tracks_done
+		# other possible offsets can still follow
+		done = tracks_done and not self.cut_data
 	elif srs_cut_bug:
 		# track other possible match offsets
 		_extra_offsets_x265_bug(self, er, track, sforsample, sformain)
-- 
2.43.0


From ba6eb330ec1a3ed14b378a8c9b082d928f201e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 111/140] fix: yEnc article without any data that should have
 CRC 0

---
 usenet/yenc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/usenet/yenc.py b/usenet/yenc.py
index e1ed24a..cbc0d61 100644
--- a/usenet/yenc.py
+++ b/usenet/yenc.py
@@ -121,6 +121,11 @@ def decode(data, seg_part=False, ignore_crc=False):
 
 				if not (_partcrc == partcrc):
 					raise CrcError(_partcrc, partcrc, decoded_data)
+
+				# data that is missing completely can have a matching CRC too
+				size = yend.get(b'size', b'')
+				if size.isdigit() and int(size) != len(decoded_data):
+					raise YencException("Size in yEnc trailer doesn't match")
 		else:
 			# print(yenc)
 			# ({'total': '15', 'line': '128', 'part': '15',
-- 
2.43.0


From 8825b19bf6383b9608ece7db9e90687418e06a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 112/140] fix: names that the terminal can't show no longer
 stop the program

---
 bin/pyrescene.py   | 3 ++-
 resample/srs.py    | 2 ++
 rescene/srr.py     | 3 ++-
 rescene/utility.py | 9 +++++++++
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index a6a0a0d..e94d5d9 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -81,7 +81,7 @@ from rescene.unrar import locate_unrar
 from resample.fpcalc import ExecutableNotFound, MSG_NOTFOUND
 from resample.main import file_type_info, sample_class_factory, FileType
 from rescene.utility import raw_input, unicode, fsunicode
-from rescene.utility import decodetext, encodeerrors
+from rescene.utility import decodetext, encodeerrors, replace_unencodable
 from rescene.utility import create_temp_file_name, replace_result
 from rescene.utility import capitalized_fn
 from rescene.utility import DISK_FOLDERS, RELEASE_FOLDERS 
@@ -1470,6 +1470,7 @@ def is_empty_file(fpath):
 
 def main(argv=None):
 	start_time = datetime.now()
+	replace_unencodable(sys.stdout)
 	parser = OptionParser(
 	usage=("Usage: %prog [directories] [options]\n"
 	"This tool can automatically create a complete SRR file for a "
diff --git a/resample/srs.py b/resample/srs.py
index ccf374a..077c6b4 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -38,6 +38,7 @@ from resample.main import InvalidMatchOffset, InvalidPathValue
 from rescene.utility import FileType
 from rescene.utility import sep, is_rar
 from rescene.utility import raw_input, unicode
+from rescene.utility import replace_unencodable
 from rescene.utility import create_temp_file_name, replace_result
 
 _DEBUG = bool(os.environ.get("RESCENE_DEBUG"))  # leave empty for False
@@ -205,6 +206,7 @@ def main(argv=None, no_exit=False):
 	no_exit: used when this function is called from an other Python program
 	"""
 	parser = setup_cli_parser()
+	replace_unencodable(sys.stdout)
 
 	if argv is None:
 		argv = sys.argv[1:]
diff --git a/rescene/srr.py b/rescene/srr.py
index 0ccb1bd..2f628ae 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -40,7 +40,7 @@ import rescene
 from rescene.main import MsgCode, FileNotFound, RarNotFound, EmptyRepository
 from rescene.utility import sep
 from rescene.utility import raw_input
-from rescene.utility import encodeerrors
+from rescene.utility import encodeerrors, replace_unencodable
 from rescene.utility import calculate_crc32
 from rescene.utility import create_temp_file_name, replace_result
 
@@ -402,6 +402,7 @@ def create_srr(options, infolder, infiles, working_dir):
 
 def main(argv=None):
 	global parser
+	replace_unencodable(sys.stdout)
 	parser = optparse.OptionParser(
 	usage=("Usage: %prog [input file list] [options]\n"
 	"To create a ReScene file (.srr), use the .sfv file(s) accompanied"
diff --git a/rescene/utility.py b/rescene/utility.py
index 455570f..45c721b 100644
--- a/rescene/utility.py
+++ b/rescene/utility.py
@@ -646,6 +646,15 @@ def encodeerrors(text, textio, errors="replace"):
 		text = text.encode(encoding, errors).decode(encoding)
 	return text
 
+def replace_unencodable(textio):
+	"""Show a replacement for characters that the output can't represent,
+	e.g. file names on a console or when redirected, instead of failing."""
+	if getattr(textio, "errors", None) == "strict":
+		try:
+			textio.reconfigure(errors="replace")
+		except AttributeError:  # Python < 3.7 or no real text output
+			pass
+
 def decodetext(tbytes, *pos, **kw):
 	"""Decode a string using TextIOWrapper"""
 	return TextIOWrapper(BytesIO(tbytes), *pos, **kw).read()
-- 
2.43.0


From 9f63a9246a2e9d42fd68dee691aa844d34f56c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 113/140] fix: line ends in the listing of RAR block flags

---
 rescene/rar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/rar.py b/rescene/rar.py
index 0f87fb7..168763b 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1231,7 +1231,7 @@ class RarPackedFileBlock(RarBlock): # 0x74
 				"(Extended time field present)\n"
 		if self.flags & self.EXTFLAGS:
 			out += self.flag_format(self.EXTFLAGS) + "LHD_EXTFLAGS "  \
-				"(never used)\;"
+				"(never used)\n"
 		out += self.flag_format(self.flags & self.DIRECTORY) +  \
 				"LHD_WINDOW (" + self.get_dictionary() + ")\n"
 		return out
-- 
2.43.0


From d78ee07fc78b80762c2c2edbf6fc0404c29a9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 114/140] fix: a RAR that ends inside a block that the SRR
 needs is refused

---
 rescene/rar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rescene/rar.py b/rescene/rar.py
index 168763b..27a50b1 100644
--- a/rescene/rar.py
+++ b/rescene/rar.py
@@ -1620,6 +1620,9 @@ class RarReader(object):
 		elif btype != BlockType.RarPackedFile and  \
 				not is_recovery and add_size > 0:
 			block_buffer += self._rarstream.read(add_size)
+			if len(block_buffer) < hsize + add_size:
+				raise EnvironmentError("Truncated RAR block at offset {0:#x}"
+				                       .format(block_start_position))
 
 		# If we're not returning the data, skip over it, 
 		# but only for RAR or SFX mode. 
-- 
2.43.0


From caae4ac0e2edc567a4db79186bdb85aa4beb0520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 115/140] fix: store NFO files of 8 bytes that aren't named
 no.nfo

---
 bin/pyrescene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index e94d5d9..5f0d7f1 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -950,7 +950,7 @@ def generate_srr(reldir, working_dir, options, mthread):
 	for nfo in get_files(reldir, "*.nfo"):
 		if os.path.basename(nfo).lower() in ("imdb.nfo", "tvmaze.nfo"):
 			continue
-		if os.path.basename(nfo).lower() in ("no.nfo"):
+		if os.path.basename(nfo).lower() == "no.nfo":
 			try:
 				if os.path.getsize(nfo) == 8:
 					continue  # contains the text "no.nfo"
-- 
2.43.0


From 525caf68650488c5469f901de47b2fb120befc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 116/140] fix: vobsubs with the same archive name as a stored
 RAR elsewhere

---
 bin/pyrescene.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 5f0d7f1..452f849 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -1147,9 +1147,10 @@ def generate_srr(reldir, working_dir, options, mthread):
 		for esfv in extra_sfvs:
 			skip = False
 			# not for Proof RARs that are already stored inside the SRR
+			# (vobsubs can have the same name in their own folder)
+			erar = work_dir_file(esfv[:-3] + "rar", reldir, working_dir)
 			for cfile in copied_files:
-				erar = os.path.basename(esfv)[:-3] + "rar"
-				if cfile.lower().endswith(erar.lower()):
+				if cfile.lower() == erar.lower():
 					skip = True
 					break
 			# not for dirfix releases moved to the main folder
-- 
2.43.0


From 0297214ddd8914acd0a503139d0bc55efdecf5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 117/140] fix: images named like the release: don't look at
 letter case

---
 bin/pyrescene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/pyrescene.py b/bin/pyrescene.py
index 452f849..46eee87 100644
--- a/bin/pyrescene.py
+++ b/bin/pyrescene.py
@@ -316,7 +316,7 @@ def store_rls_root(proof, rar_files, reldir):
 def similar_to_good_name(lproof, rar_files, reldir):
 	basenames = collect_known_good_filenames(reldir, rar_files)
 	s = 10  # first X characters
-	p = os.path.basename(lproof)
+	p = os.path.basename(lproof).lower()
 
 	# for music releases, NFOs not always start with 00
 	# while all the other files do (sfv, m3u, jpg, cue,...)
@@ -334,7 +334,7 @@ def similar_to_good_name(lproof, rar_files, reldir):
 			#     _(london)-2000-tronik.sfv
 			#   /01_gu_017_-_london_(cd_1)-tronik.cue
 			grprls = bn.lower().split('-')[-1]
-			grpimg = os.path.splitext(lproof)[0].split('-')[-1]
+			grpimg = os.path.splitext(p)[0].split('-')[-1]
 			if grprls == grpimg:
 				return True
 	return False
-- 
2.43.0


From 573c799784d4de45c77c726ac82b2a6d8e34d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 118/140] fix: store a file that is posted twice once

---
 usenet/srr_usenet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index 57be538..d787681 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -1217,6 +1217,13 @@ def create_srr(nzb_path, options):
 	nfos = []
 	storefiles = []
 
+	# a file that is posted more than once is stored once: the best version
+	unique_names = []
+	for afile in to_store:
+		if afile.name not in unique_names:
+			unique_names.append(afile.name)
+	to_store = [nntp_files[name] for name in unique_names]
+
 	for afile in to_store:
 		# remove automated sample screen shots: _s.jpg
 		if afile.name.endswith("_s.jpg"):
-- 
2.43.0


From cf20000d6d2654375b383824278b9d32f6ff3207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:07 +0000
Subject: [PATCH 119/140] fix: usenet: complete a partial segment before
 looking for RAR headers

---
 usenet/srr_usenet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index d787681..e82c7ef 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -715,6 +715,10 @@ class NNTPFile(io.IOBase):
 		# utility functions for the MAGIC
 		def get_basic_header(offset):
 			""" offset: offset within the start segment """
+			if (spart_nb in self.partial and
+			    offset + 7 > len(self.data[spart_nb])):
+				# the rest of the header isn't in the next segment
+				self.grab_segment(self.segments[spart_nb].message_id)
 			shead = self.data[spart_nb][offset:offset + 7]
 			def try_to_complete(shead):
 				if len(shead) != 7:
@@ -870,6 +874,9 @@ class NNTPFile(io.IOBase):
 			# if we have already done the first 7 bytes
 			# -> it could try a shift if the CRC32 has one of the blocktypes
 			self._end_magic_before = True
+			if spart_nb in self.partial:
+				# the end of the segment isn't known yet
+				self.grab_segment(self.segments[spart_nb].message_id)
 			# only do MAGIC if we are exactly at the start of the last block
 			flags = get_flags_basic_header(len(self.data[spart_nb]) - bleft)
 			if not flags & ~rar.RarEndArchiveBlock.SUPPORTED_FLAG_MASK:
-- 
2.43.0


From 5f45243db41928a819ee0cdcefca637b096a456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:14 +0000
Subject: [PATCH 120/140] fix: usenet: recognise articles that aren't the
 requested segment

---
 usenet/srr_usenet.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/usenet/srr_usenet.py b/usenet/srr_usenet.py
index e82c7ef..6577697 100644
--- a/usenet/srr_usenet.py
+++ b/usenet/srr_usenet.py
@@ -455,12 +455,26 @@ class NNTPFile(io.IOBase):
 			raise nntplib.NNTPError("Failure on all servers.")
 
 		def decode_yenc_body(data):
-			if nb_lines > 1:  # not the full segment is grabbed
-				return _decode_yenc(data, partial_data=True,
-				                    crc_behaviour=self.ignore_crc_errors)
-			else:
-				return _decode_yenc(data, partial_data=False,
-				                    crc_behaviour=self.ignore_crc_errors)
+			part = _decode_yenc(data,
+			                    # not the full segment is grabbed?
+			                    partial_data=(nb_lines > 1),
+			                    crc_behaviour=self.ignore_crc_errors)
+			check_article(part)
+			return part
+
+		def check_article(part):
+			"""The server can return the wrong article: detect this here, so
+			the segment will be tried on the other servers."""
+			number = part['part_number']
+			if (number in self.segments and
+			    self.segments[number].message_id != message_id):
+				raise yenc.YencException("Unexpected segment %d received."
+				                         % number)
+			if (not self._inactive and part['file_size'] != self._file_size and
+			    (not self.is_rar or
+			     part['file_name'].decode('utf-8', 'replace') != self.name)):
+				raise yenc.YencException("Segment from a different post "
+				                         "received.")
 
 		if self.group:
 			# Send GROUP before download
-- 
2.43.0


From 4e910b284cbe36e99de60deb8f3fe4e1e5281cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:59 +0000
Subject: [PATCH 121/140] fix: nzb: repair &ouml; for all document encodings

---
 usenet/nzb_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usenet/nzb_utils.py b/usenet/nzb_utils.py
index b693ce1..1707870 100644
--- a/usenet/nzb_utils.py
+++ b/usenet/nzb_utils.py
@@ -50,8 +50,8 @@ def read_nzb(nzb_file):
 				# invalid XML characters from NewsLeecher
 				line = re.sub(b"\00", b"", line)
 				line = re.sub(XML_AMP_FIX, b"&amp;", line)
-				LATIN1_OUML = b"\xF6"
-				line = re.sub(b"&ouml;", LATIN1_OUML, line)
+				# undefined in XML; works for all document encodings
+				line = re.sub(b"&ouml;", b"&#246;", line)
 				# <!-- Generated by newsmangler at 2009-05-31 20:42:43 UTC -->
 				# after the comment the NZB closing tag appears twice
 				if b"</nzb>" in line:
-- 
2.43.0


From db4d2f1ac4dbe7fed318f20f64c91da2a71b3ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:53 +0000
Subject: [PATCH 122/140] fix: name the SRR after the input folder given as
 'folder/' or '.'

---
 rescene/srr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rescene/srr.py b/rescene/srr.py
index 2f628ae..e3fe383 100644
--- a/rescene/srr.py
+++ b/rescene/srr.py
@@ -355,8 +355,8 @@ def create_srr(options, infolder, infiles, working_dir):
 
 	if not srr_name:
 		if options.parent:  # -d
-			srr_name = os.path.join(out_folder,
-		                        os.path.split(infolder)[-1] + ".srr")
+			parent = os.path.basename(os.path.abspath(infolder))
+			srr_name = os.path.join(out_folder, parent + ".srr")
 		else:
 			srr_name = os.path.join(out_folder,
 								os.path.basename(infiles[0])[:-4] + ".srr")
-- 
2.43.0


From 7e2374ec974f4a05ba775ebcda1716124e09cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:01 +0000
Subject: [PATCH 123/140] fix: use the frame start in front of the encoder name
 for the fingerprint

---
 resample/fpcalc.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/resample/fpcalc.py b/resample/fpcalc.py
index 6c34726..9b64643 100644
--- a/resample/fpcalc.py
+++ b/resample/fpcalc.py
@@ -154,19 +154,22 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 
 					# 2) find last MP3 sync block before found string
 					# 256 bytes: random amount that seems enough
-					orig.seek(string_index - 0x100, os.SEEK_SET)
-					stack = orig.read(0x100)
+					stack_start = max(0, string_index - 0x100)
+					orig.seek(stack_start, os.SEEK_SET)
+					stack = orig.read(string_index - stack_start)
 					sync_index = stack[:-1].rfind(b"\xFF")
 					while sync_index > -1:
-						next_byte = ord(stack[sync_index:sync_index + 1])
+						next_byte = ord(stack[sync_index + 1:sync_index + 2])
 						if next_byte & 0xE0 == 0xE0:
 							break
 						sync_index = stack.rfind(b"\xFF", 0, sync_index)
+					if sync_index < 0:
+						raise ValueError("Fingerprinting failed: "
+							"no MP3 sync bytes found.")
 
 					# 3) write out the cleaned music data to fingerprint on
 					with open(stripped, "wb") as tmpf:
-						sync_start = string_index - (0x100 + sync_index)
-						orig.seek(sync_start, os.SEEK_SET)
+						orig.seek(stack_start + sync_index, os.SEEK_SET)
 						tmpf.write(orig.read())
 
 			duration, fp = fingerprint(stripped, temp_dir, recursive)
-- 
2.43.0


From 6f6379d2c25eff3b33b588f5a9db1a70357bfc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 124/140] fix: remove the temporary copy of a music file when
 fingerprinting fails

---
 resample/fpcalc.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/resample/fpcalc.py b/resample/fpcalc.py
index 9b64643..7bcb5b0 100644
--- a/resample/fpcalc.py
+++ b/resample/fpcalc.py
@@ -47,10 +47,7 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 	"""Calculates the fingerprint of the given file.
 	temp_dir: optional temporary directory to use
 	recursive: local parameter to prevent endless loop after stripping tags"""
-	duration = fp = b""
-	bad = False
 	fpcalc = find_fpcalc_executable()
-	temp_cleanup = False
 
 	try:
 		file_name.encode('ascii')
@@ -61,14 +58,24 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 		# test release: VA-Tony_Hawks_Pro_Skater_4-Soundtrack-2003-RARNeT
 		# copy the file with a default name and create the fp for that file
 		print("Non-ASCII characters detected: creating temporary file.")
-		temp_cleanup = True
 		name_suffix = make_temp_suffix(file_name)
 		(fd, tmpname) = tempfile.mkstemp(name_suffix, dir=temp_dir)
 		os.close(fd)  # we won't use it
-		with open(file_name, "rb") as music_file:
-			with open(tmpname, "wb") as tmpf:
-				tmpf.write(music_file.read())
-		file_name = tmpname
+		try:
+			with open(file_name, "rb") as music_file:
+				with open(tmpname, "wb") as tmpf:
+					tmpf.write(music_file.read())
+			return run_fpcalc(fpcalc, tmpname, temp_dir, recursive)
+		finally:
+			print("Removing %s" % tmpname)
+			os.remove(tmpname)
+
+	return run_fpcalc(fpcalc, file_name, temp_dir, recursive)
+
+def run_fpcalc(fpcalc, file_name, temp_dir, recursive):
+	"""Runs fpcalc on the file, and again without tags if it fails."""
+	duration = fp = b""
+	bad = False
 
 	# Set fingerprint length to 120 seconds
 	# older fpcalc versions default to 60 seconds
@@ -189,13 +196,6 @@ def fingerprint(file_name, temp_dir=None, recursive=0):
 			print("Removing %s" % stripped)
 			os.remove(stripped)
 
-	if temp_cleanup:
-		print("Removing %s" % tmpname)
-		os.remove(tmpname)
-
-	if bad:
-		raise ValueError("Fingerprinting failed.")
-
 	return duration, fp
 
 def find_fpcalc_executable():
-- 
2.43.0


From 0f4d41e026bec6f11d0263758086091d37c9accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:53 +0000
Subject: [PATCH 125/140] fix: info(): sum up the packed sizes when the first
 volume holds none of the data

---
 rescene/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rescene/main.py b/rescene/main.py
index 458adbc..b9d2e42 100644
--- a/rescene/main.py
+++ b/rescene/main.py
@@ -1086,7 +1086,7 @@ def info(srr_file):
 			if block.unpacked_size == 0xffffffff and not f.compression:
 				# 2) above int was correct? it must match at the end
 				f.file_size += block.packed_size
-			if block.unpacked_size != 0xffffffffffffffff and f.file_size == 0:
+			elif block.unpacked_size != 0xffffffffffffffff and f.file_size == 0:
 				# 1) expected the last RAR (first with the proper value)
 				f.file_size = block.unpacked_size
 			# crc of the file is the crc stored in
-- 
2.43.0


From 6e2ef3a01d16f8a67ea37e656026ec32f20db988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:09 +0000
Subject: [PATCH 126/140] fix: an empty MKV frame is not the start of a track

---
 resample/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/main.py b/resample/main.py
index c574e69..dd2b67c 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -2423,7 +2423,8 @@ def _mkv_block_find(self, tracks, er, done, tracks_main):
 				check_bytes += buff[offset + len(sformain):
 				                    offset + len(sformain) + lcb]
 				check_bytes = check_bytes[:lcb]
-				if track.signature_bytes.startswith(check_bytes):
+				# (an empty frame matches everything)
+				if check_bytes and track.signature_bytes.startswith(check_bytes):
 					track.check_bytes = check_bytes
 					track.match_offset = (er.current_element.element_start_pos
 					                      + len(er.current_element.raw_header)
-- 
2.43.0


From 21b9615873c32356df423aed05bea833adb9512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:06 +0000
Subject: [PATCH 127/140] fix: a signature that the main file cuts short is not
 located

---
 resample/main.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/resample/main.py b/resample/main.py
index dd2b67c..982c641 100644
--- a/resample/main.py
+++ b/resample/main.py
@@ -729,6 +729,14 @@ class M2tsReSample(ReSample):
 	def rebuild_sample(self, *args, **kwargs):
 		return m2ts_rebuild_sample(self, *args, **kwargs)
 
+def drop_partial_matches(tracks):
+	"""The main file ended before the whole signature was matched."""
+	for track in tracks.values():
+		if 0 < len(track.check_bytes) < len(track.signature_bytes):
+			track.check_bytes = b""
+			track.match_offset = 0
+			track.match_length = 0
+
 def check_data_found(srs_data):
 	if srs_data is None:
 		raise ValueError("No sample data found in the SRS file")
@@ -2215,6 +2223,7 @@ def avi_find_sample_streams(self, tracks, main_avi_file):
 	remove_spinner()
 
 	rr.close()
+	drop_partial_matches(tracks)
 	return tracks
 
 def _avi_normal_chunk_find(tracks, rr, block_count, done):
@@ -2358,6 +2367,7 @@ def mkv_find_sample_streams(self, tracks, main_mkv_file):
 	remove_spinner()
 
 	er.close()
+	drop_partial_matches(tracks)
 	return tracks
 
 def _mkv_block_find(self, tracks, er, done, tracks_main):
@@ -2809,6 +2819,7 @@ def wmv_find_sample_streams(self, tracks, main_wmv_file):
 
 	remove_spinner()
 
+	drop_partial_matches(tracks)
 	return tracks
 
 def flac_find_sample_streams(self, tracks, main_flac_file):
-- 
2.43.0


From d2a718ab6712fee80937533e9b537d901b933185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:29 +0000
Subject: [PATCH 128/140] fix: srs --ddd names the SRS after the parent
 directory

---
 resample/srs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resample/srs.py b/resample/srs.py
index 077c6b4..ddd88ce 100644
--- a/resample/srs.py
+++ b/resample/srs.py
@@ -329,7 +329,8 @@ def main(argv=None, no_exit=False):
 				if options.directory:  # --d
 					d = os.path.dirname(sample_file).rsplit(os.sep, 1)[1]
 					srs_name = os.path.join(out_folder, d + ext)
-				elif options.parent_directory:  # --dd
+				elif (options.parent_directory or
+					options.srs_parent_directory):  # --dd and --ddd
 					dd = os.path.dirname(sample_file).rsplit(os.sep, 2)[1]
 					srs_name = os.path.join(out_folder, dd + ext)
 				else:
-- 
2.43.0


From ca8efb13817374b5bf5bb88d65a47e5fd340e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:29 +0000
Subject: [PATCH 129/140] fix: retag: SRS of other media no longer ends the
 program

---
 bin/retag.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bin/retag.py b/bin/retag.py
index 94a022b..36fe13b 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -115,7 +115,6 @@ def fix_tagging(srs, output_dir, input_dir, always_yes):
 	except NoTaggingAvailable as not_music:
 		print("")
 		print(str(not_music))
-		os.remove(srs)
 		return False
 
 	original_name = srs_info.sample_name
-- 
2.43.0


From 05ad0d3629239489d32718977b96e68de27a59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 130/140] fix: retag: exit code tells whether all tracks were
 fixed

---
 bin/retag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/retag.py b/bin/retag.py
index 36fe13b..6bac5fd 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -102,6 +102,7 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 		"" if failures == 1 else "s",
 		"" if not skips else "%s skip%s." %
 	    	(skips, "" if skips == 1 else "s")))
+	return failures == 0
 
 def fix_tagging(srs, output_dir, input_dir, always_yes):
 	"""Fixes the meta data tags of a music track.
-- 
2.43.0


From 0570cf7e09ac9250ab24e388b1b79f935f6b8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 131/140] fix: retag: files with the same name in different
 folders

---
 bin/retag.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index 6bac5fd..1144aa5 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -60,6 +60,11 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 
 	stored_files = rescene.info(srr_file)['stored_files']
 
+	def extract_file(name):
+		"""Only that file: the name can occur in an other folder too."""
+		return rescene.extract_files(srr_file, output_dir, True,
+			matcher=lambda stored_name: stored_name == name)[0]
+
 	# extract non SRS files
 	successes = 0
 	failures = 0
@@ -70,12 +75,12 @@ def fix_tracks(srr_file, input_dir, output_dir, always_yes=False):
 			srs_files.append(sfile)
 		else:
 			print("Extracting %s" % sfile)
-			rescene.extract_files(srr_file, output_dir, True, sfile)
+			extract_file(sfile)
 
 	# fix music files that can be found
 	for srs in srs_files:
 		print("Using %s" % srs)
-		(out, ok) = rescene.extract_files(srr_file, output_dir, True, srs)[0]
+		(out, ok) = extract_file(srs)
 		if not ok:
 			# file extraction failed or existing .srs not overwritten
 			print("Attempt to fix track aborted.")
-- 
2.43.0


From ccd4af11023801b6b97b73207480cfd38dc33f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 132/140] fix: retag: use the track from its own folder first

---
 bin/retag.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/retag.py b/bin/retag.py
index 1144aa5..8a55f85 100644
--- a/bin/retag.py
+++ b/bin/retag.py
@@ -126,12 +126,13 @@ def fix_tagging(srs, output_dir, input_dir, always_yes):
 	original_name = srs_info.sample_name
 	print("Fixing %s" % original_name)
 
-	musicf = join_fix_case(input_dir, original_name)
+	# an other disc can have a track with the same name
 	out_subfolder = os.path.dirname(os.path.relpath(srs, output_dir))
+	srr_path = out_subfolder.split("/")
+	srr_path.append(original_name)
+	musicf = join_fix_case(input_dir, *srr_path)
 	if not os.path.isfile(musicf):
-		srr_path = out_subfolder.split("/")
-		srr_path.append(original_name)
-		musicf = join_fix_case(input_dir, *srr_path)
+		musicf = join_fix_case(input_dir, original_name)
 		if not os.path.isfile(musicf):
 			print("Track not found")
 			raise ValueError("not found")
-- 
2.43.0


From a386e616f7622e4b9e5e1f50c97e0ad8b72ada78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:15 +0000
Subject: [PATCH 133/140] fix: srs_size: a corrupt SRS file doesn't end the
 listing

---
 bin/srs_size.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bin/srs_size.py b/bin/srs_size.py
index b5c7554..271272e 100644
--- a/bin/srs_size.py
+++ b/bin/srs_size.py
@@ -24,6 +24,8 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 # OTHER DEALINGS IN THE SOFTWARE.
 
+from __future__ import print_function
+
 import optparse
 import sys
 import os
@@ -41,8 +43,15 @@ def main(options, args):
 		for sfile in filenames:
 			if sfile[-4:].lower() == ".srs":
 				f = os.path.join(dirpath, sfile)
-				sample = sample_class_factory(file_type_info(f).file_type)
-				srs_data, _tracks = sample.load_srs(f)
+				try:
+					sample = sample_class_factory(file_type_info(f).file_type)
+					srs_data, _tracks = sample.load_srs(f)
+				except Exception as err:
+					# a corrupt file doesn't have to end the listing
+					print("Something wrong with reading %s" % f,
+					      file=sys.stderr)
+					print(err, file=sys.stderr)
+					continue
 				if srs_data.size > int(options.size):
 					print(f)
 					print(sep(srs_data.size))
-- 
2.43.0


From bb40b2d45667d5e6b240207c5f2f45c93d939998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:15 +0000
Subject: [PATCH 134/140] fix: srs_bad: corrupt files and SRS files with the
 same name

---
 bin/srs_bad.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/bin/srs_bad.py b/bin/srs_bad.py
index 6a5da42..f1d41c5 100644
--- a/bin/srs_bad.py
+++ b/bin/srs_bad.py
@@ -24,11 +24,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 # OTHER DEALINGS IN THE SOFTWARE.
 
+from __future__ import print_function
+
 import optparse
 import sys
 import tempfile
 import os
-from os.path import join, dirname, basename
+from os.path import dirname, basename
 
 try:
 	import _preamble
@@ -49,7 +51,14 @@ def main(options, args):
 		for sfile in filenames:
 			if sfile[-4:].lower() == ".srr":
 				srrf = os.path.join(dirpath, sfile)
-				handle_srr(srrf, options, tempdir)
+				try:
+					handle_srr(srrf, options, tempdir)
+				except Exception as err:
+					# a corrupt file doesn't have to end the listing
+					print("Something wrong with reading %s" % srrf,
+					      file=sys.stderr)
+					print(err, file=sys.stderr)
+					empty_folder(tempdir)
 	os.rmdir(tempdir)
 
 def handle_srr(srr_file, options, temporary_directory):
@@ -66,13 +75,11 @@ def handle_srr(srr_file, options, temporary_directory):
 			printout.add(stored_file)
 
 	if extracting_needed:
-		extract_files(srr_file, temporary_directory, extract_paths=False)
-		for value in srrinfo["stored_files"].values():
-			fn = basename(value.file_name)
+		for srsf, _success in extract_files(srr_file, temporary_directory):
+			fn = basename(srsf)
 			if fn.endswith(".srs"):
-				srsf = join(temporary_directory, fn)
 				ft = file_type_info(srsf).file_type
-				if ft not in [FileType.MP3, FileType.FLAC]:
+				if ft not in [FileType.MP3, FileType.FLAC, FileType.Unknown]:
 					sample = sample_class_factory(ft)
 					_srs_data, tracks = sample.load_srs(srsf)
 					for track in tracks.values():
-- 
2.43.0


From 6beef62c9a59af66ba6976d587a894294143e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:15 +0000
Subject: [PATCH 135/140] fix: srs_batch: no questions with -n and a reason for
 each failure

---
 bin/srs_batch.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bin/srs_batch.py b/bin/srs_batch.py
index 97fbbe2..acd94dc 100644
--- a/bin/srs_batch.py
+++ b/bin/srs_batch.py
@@ -57,6 +57,11 @@ def create_srs(sample_dir, sample_file, output_dir, path, keep):
 	dest_dir = os.path.join(output_dir, path)
 	sample = os.path.join(sample_dir, sample_file)
 
+	srs_name = os.path.splitext(sample_file)[0] + ".srs"
+	if keep and os.path.isfile(os.path.join(dest_dir, srs_name)):
+		print("Not replaced: %s" % srs_name)
+		return
+
 	if not os.path.isdir(dest_dir):
 		os.makedirs(dest_dir)
 
@@ -65,9 +70,11 @@ def create_srs(sample_dir, sample_file, output_dir, path, keep):
 	sys.stderr = open(txt_error_file, "wt")
 	keep_txt = False
 	try:
-		overwrite_param = "" if keep else "-y"
-		srsmain([sample, overwrite_param, "-o", dest_dir], True)
-	except ValueError:
+		srsmain([sample, "-y", "-o", dest_dir], True)
+	except ValueError as err:
+		# not all problems are printed
+		if not sys.stderr.tell():
+			sys.stderr.write(str(err))
 		keep_txt = True
 
 	sys.stderr.close()
-- 
2.43.0


From fa85430c334ff99d3105ee9b9b69cfd9b6a87642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:16 +0000
Subject: [PATCH 136/140] fix: srr_sort: listing of NFOs, images, .001 sets and
 moving

---
 bin/srr_sort.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/bin/srr_sort.py b/bin/srr_sort.py
index b89efff..9049eee 100644
--- a/bin/srr_sort.py
+++ b/bin/srr_sort.py
@@ -29,7 +29,6 @@ from __future__ import division
 import optparse
 import sys
 import os
-import glob
 import re
 
 try:
@@ -54,12 +53,12 @@ def check_empty(srr_file):
 	return True
 
 def check_image(srr_file, noproof):
-	images = (".jpg", ".png", ".bmp", ".gif", "jpeg")
+	images = (".jpg", ".png", ".bmp", ".gif", ".jpeg")
 	for block in RarReader(srr_file):
 		if (block.rawtype == BlockType.SrrStoredFile and
-			os.path.splitext(block.file_name)[1] in images):
+			os.path.splitext(block.file_name)[1].lower() in images):
 			if noproof and "proof" in block.file_name.lower():
-				return False
+				continue
 			return True
 	return False
 
@@ -73,8 +72,8 @@ def check_repack(srr_file):
 	return False
 
 def check_nfos(srr_file):
+	nfo_count = 0
 	for block in RarReader(srr_file):
-		nfo_count = 0
 		if (block.rawtype == BlockType.SrrStoredFile and
 			block.file_name[-4:].lower() == ".nfo"):
 			nfo_count += 1
@@ -129,7 +128,7 @@ def check(srr_file):
 			if options.multiple:
 				sets = []
 				for f in info["rar_files"]:
-					ms = "^(.*?)(.part\d+.rar|(.[rstuv]\d\d|.rar))$"
+					ms = r"^(.*?)(\.part\d+\.rar|\.[r-z]\d\d|\.rar|\.\d{3})$"
 					base = re.match(ms, f, re.IGNORECASE).group(1)
 					if not base in sets:
 						sets.append(base)
@@ -138,9 +137,9 @@ def check(srr_file):
 
 		if options.dirfix:
 			if "dirfix" in srr_file.lower() or "nfofix" in srr_file.lower():
-				print(srr_file)
+				result |= True
 		if options.lowercase:
-			group = srr_file[:-4].rsplit("-")[-1]
+			group = os.path.basename(srr_file)[:-4].rsplit("-")[-1]
 			if group == group.lower():
 				result |= True
 			if "." in group:  # does not have a group name
@@ -175,7 +174,11 @@ def check(srr_file):
 			print("Moving %s." % srr_file)
 			srr_name = os.path.basename(srr_file)
 			# move the SRR to the given directory
-			os.renames(srr_file, os.path.join(options.output_dir, srr_name))
+			destination = os.path.join(options.output_dir, srr_name)
+			if os.path.exists(destination):
+				print("Not moved: %s exists already." % destination)
+			else:
+				os.renames(srr_file, destination)
 		if result:
 			print(os.path.basename(srr_file))
 	except (EnvironmentError, Exception) as err:
@@ -186,8 +189,9 @@ def check(srr_file):
 def main(options, args):
 	for element in args:
 		if os.path.isdir(element):
-			for srr_file in glob.iglob(element + "/*.srr"):
-				check(srr_file)
+			for srr_file in sorted(os.listdir(element)):
+				if srr_file.endswith(".srr"):
+					check(os.path.join(element, srr_file))
 		elif os.path.isfile(element) and element.endswith(".srr"):
 			check(element)
 		else:
-- 
2.43.0


From a5905fb96c45a25a990d8a47fc9ddf6a366a5280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:20 +0000
Subject: [PATCH 137/140] fix: preprardir: no crash without UnRAR, find the key
 next to it and skip damaged archives

---
 bin/preprardir.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bin/preprardir.py b/bin/preprardir.py
index 9d035c0..a9ad1b4 100644
--- a/bin/preprardir.py
+++ b/bin/preprardir.py
@@ -83,9 +83,9 @@ def copy_license_file(output_dir):
 	.rarregkey, if you wish, but rarreg.key is also valid.
 	"""
 	unrar = locate_unrar()
-	if os.path.isfile(unrar):
+	if unrar and os.path.isfile(unrar):
 		# a WinRAR folder
-		licfile = os.path.join(os.path.basename(unrar), "RarReg.key")
+		licfile = os.path.join(os.path.dirname(unrar), "RarReg.key")
 		if os.path.isfile(licfile):
 			shutil.copy(licfile, output_dir)
 			return True
@@ -121,7 +121,12 @@ def extract_rarbin(source, dest, unrar=locate_unrar()):
 		elif not options.enable_beta and tag.beta:
 			continue
 		archive_name = os.path.join(source, fname)
-		date, name = get_rar_date_name(archive_name)
+		try:
+			date, name = get_rar_date_name(archive_name)
+		except (ValueError, KeyError, EnvironmentError, EOFError,
+		        tarfile.TarError):
+			# damaged or not a RAR distribution
+			date = name = None
 		if date and name:
 			if tarfile.is_tarfile(archive_name):
 				new_name = date + "_rar%s" % tag
@@ -144,15 +149,17 @@ def extract_rarbin(source, dest, unrar=locate_unrar()):
 					# no extension for Linux executables
 					new_name = new_name[:-4]
 				print("Extracting %s..." % new_name, end=" ")
+				if not unrar:
+					raise OSError("UnRAR not found.")
 				args = [unrar, "e", archive_name, name, dest]
 				extract = custom_popen(args)
+				# for rarln271.sfx and others
+				name = os.path.basename(name)
 				if extract.wait() in (0, 1):
 					# Error code 1: when there is some corruption in the file
 					# Verifying authenticity information ...  Failed
 					# has been seen on wrar260.exe
 					try:
-						# for rarln271.sfx and others
-						name = os.path.basename(name)
 						os.rename(os.path.join(dest, name),
 								  os.path.join(dest, new_name))
 						if extract.wait() == 1:
-- 
2.43.0


From 1748f33e3878747979f49542a09d2728e631b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:27 +0000
Subject: [PATCH 138/140] fix: list_crcs: a damaged SRR doesn't stop the
 listing

---
 scripts/list_crcs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scripts/list_crcs.py b/scripts/list_crcs.py
index 4409852..11ed25d 100644
--- a/scripts/list_crcs.py
+++ b/scripts/list_crcs.py
@@ -27,7 +27,13 @@ except ImportError:
 	print("Can't import the 'rescene' module.")
 
 def list_srr(sfile):
-	for key, value in info(sfile)['archived_files'].items():
+	try:
+		archived_files = info(sfile)['archived_files']
+	except (ValueError, EnvironmentError) as err:
+		# damaged SRR or not an SRR file: the others still need listing
+		sys.stderr.write("%s: %s\n" % (sfile, err))
+		return
+	for key, value in archived_files.items():
 # 		print(os.path.basename(sfile)[:-4]),
 		print("%s\t%s" % (key, value.crc32))
 
-- 
2.43.0


From 40c7b6dead7700d8f87961301e2732f5731ce2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:27 +0000
Subject: [PATCH 139/140] fix: list_compare: works on current Python versions
 and with an open last line

---
 scripts/list_compare.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/list_compare.py b/scripts/list_compare.py
index 71bf849..5e11d22 100644
--- a/scripts/list_compare.py
+++ b/scripts/list_compare.py
@@ -31,8 +31,10 @@ import sys
 import optparse
 
 def read_txt(txt_file):
-	with open(txt_file, "U") as f:
-		return set(f.readlines())
+	# text mode: universal newlines
+	with open(txt_file, "r") as f:
+		# the last line does not always have a newline
+		return set(line.rstrip("\n") for line in f)
 
 def print_releases(rellist):
 	for line in rellist:
-- 
2.43.0


From 7f929f86a42eea5af309baa7fd3a70ef72aad28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:27 +0000
Subject: [PATCH 140/140] fix: list_samples: lists each SRR once, also next to
 damaged ones

---
 scripts/list_samples.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scripts/list_samples.py b/scripts/list_samples.py
index 0202224..fc181d1 100644
--- a/scripts/list_samples.py
+++ b/scripts/list_samples.py
@@ -27,10 +27,17 @@ except ImportError:
     print("Can't import the 'rescene' module.")
 
 def list_srr(sfile):
-    for stored_file in info(sfile)['stored_files']:
+    try:
+        stored_files = info(sfile)['stored_files']
+    except (ValueError, EnvironmentError) as err:
+        # damaged SRR or not an SRR file: the others still need listing
+        sys.stderr.write("%s: %s\n" % (sfile, err))
+        return
+    for stored_file in stored_files:
         if stored_file[-4:] == ".srs":
-            # print out the release name
+            # print out the release name (once)
             print(os.path.basename(sfile)[:-4])
+            break
 
 def main(options, args):
     for element in args:
-- 
2.43.0

