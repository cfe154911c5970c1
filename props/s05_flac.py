"""S05: FLAC samples rebuild byte-identically from SRS + main file."""
from vh import srs as S

RULE = "FLAC file with metadata blocks and optional ID3 tags; non-trivial when the main file differs from the sample or there are more than 256 bytes of audio"
ASSUMPTIONS = ["tags are an ID3v2 tag before and an ID3v1 tag behind the FLAC data"]
LEGS = S.legs("flac")
