COMMON = "Every obligation is proved for all inputs by SMT over the current source; partial correctness; trusts the verifier gv and the Go SSA builder; "
STORE = 'assumes the contracts of package os, io, filepath, fmt and crypto/sha1 stated in contracts/storage.gv (a disk is a map from paths to contents, changed only by this store), torrents below 2^57 bytes with pieces up to 1 GiB, '
CLAIMED = {
 'W01': COMMON + 'assumes the io.Reader/io.Writer contracts stated in contracts/00_base.gv; MarshalBinary, UnmarshalBinary and Write are thin wrappers left outside.',
 'W02': COMMON + 'allocation of up to the announced 4 GiB is not treated as a failure; assumes the io.Reader contract.',
 'W03': COMMON + 'assumes the io.Reader/io.Writer contracts stated in contracts/00_base.gv.',
 'B01': COMMON + "machine arithmetic is checked for wrap-around; slices shorter than 2^47.",
 'M01': COMMON + "assumes bencode.Marshal/Unmarshal write and read a byte string exactly (properties E01/D02), the strings.Builder contract, and that the sum of the file lengths fits an int64.",
 'S01': COMMON + STORE + "and that callers do not change a block's bytes after handing them over.",
 'S02': COMMON + STORE + "and SHA-1 as an uninterpreted function of the bytes.",
 'S03': COMMON + STORE + "distinct file paths with lengths >= 0; reads of a finished download assume that its files have their listed lengths; lazyFileReader is proved to read its file in order, io.MultiReader's concatenation is assumed.",
 'S04': COMMON + STORE + "no symbolic links inside the directories; target and work directories that do not overlap the torrent's own paths.",
 'S05': COMMON + STORE + "and that piece files in the work directory are intact (they are not hashed again, as documented behaviour of Load).",
}
NA = {}
