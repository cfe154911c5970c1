"""S03: MP4 samples rebuild byte-identically from SRS + main file."""
from vh import srs as S

RULE = "a sample with at least one non-empty track that has two tracks, more than 256 bytes or another layout than the main file"
ASSUMPTIONS = ["one mdat atom per file; chunk offsets, sizes and counts describe it completely",
               "the first 256 bytes of each sample track occur once in the main track"]
LEGS = S.legs("mp4")
