p('B01','Bitfield behaves as an exact set of piece indices',
 "A bitfield created for n pieces is empty and has exactly ceil(n/8) bytes; after adding in-range indices, membership is true for exactly the added ones, with index i at bit 7-(i mod 8) of byte i/8 as on the wire, and false for any index past the end. Listing returns every member exactly once in ascending order, and the difference of two bitfields (of any lengths) contains exactly the members of the first that are not in the second. Queries, listing and difference change neither operand.",
 ['inputs','histories'],"every bitfield content and length, every index, every pair of bitfields",
 "Tests sample a handful of 2-byte bitfields; the claim is over all byte contents, lengths and indices.",
 ['bitfield/bitfield.go'],[('New/Has/Add/Items/Difference','bitfield/bitfield.go')],[('Bitfield','bit i <-> piece i','bitfield/bitfield.go:3')],['bitfield.New','Bitfield.Has','Bitfield.Items','Bitfield.Difference'])
p('W01','Peer messages have the BEP-3 wire form and survive a round trip',
 "Encoding a peer message writes exactly one BEP-3 frame: a 4-byte big-endian length, the type byte, the 32-bit big-endian fields of that type in order (index, begin, length), then the bitfield or block bytes; a keep-alive is four zero bytes. Decoding those bytes yields a message of the same type with the same fields and payload, and consumes exactly that frame however the bytes are followed by others.",
 ['inputs'],"every message type, every 32-bit field value, every payload length and content",
 "Tests use one example per type with small field values; byte order, truncation and framing faults only show on particular values or on back-to-back frames.",
 ['api/peer/peer.go'],[('Message.Encode','api/peer/peer.go'),('Message.Decode','api/peer/peer.go'),('constructors and accessors','api/peer/peer.go')],None,['Message.Encode','Message.Decode','Write','ReadMessage'])
p('W02','Arbitrary peer bytes never crash message decoding',
 "Whatever bytes a remote peer sends, reading a message or handshake never panics: it returns an error or a message. A frame of a standard type whose length does not fit that type's fixed fields is rejected with an error, as is a truncated frame.",
 ['inputs'],"every byte stream, including short, truncated and oversized frames",
 "Tests decode only well-formed frames; the quantifier is over all hostile byte strings.",
 ['api/peer/peer.go'],[('Message.Decode length checks','api/peer/peer.go'),('Handshake.Decode','api/peer/peer.go')],None,['ReadMessage','ReadHandshake'])
p('W03','Handshake bytes are exact and only the right protocol is accepted',
 "Encoding a handshake writes exactly 68 bytes: 19, the text 'BitTorrent protocol', eight zero bytes, the info hash and the peer id. Decoding accepts any stream that starts with that protocol header regardless of the eight reserved bytes and of how the transport fragments it, recovers both 20-byte fields exactly and consumes exactly 68 bytes; any other protocol length or name is an error.",
 ['inputs'],"every info hash, peer id, reserved-byte value, fragmentation and non-conforming stream",
 "Tests use two fixed handshakes delivered in one read.",
 ['api/peer/peer.go'],[('Handshake.Encode/Decode','api/peer/peer.go')],None,['Handshake.Encode','Handshake.Decode','ReadHandshake'])
p('M01','Pieces tile the torrent content exactly',
 "The total length of a torrent is its single-file length, or the sum of its file lengths when it lists files. The length of every piece but the last is the piece length and the last is what remains, so the piece lengths always add up to the total length. The binary piece-hash string decodes to its consecutive 20-byte hashes in order (any other length is an error) and encodes back to the same bytes.",
 ['inputs'],"every file list, piece length, piece count and hash string",
 "Tests check two sample torrents.",
 ['api/metainfo/metainfo.go'],[('Info.GetLength/GetPieceLength','api/metainfo/metainfo.go'),('Pieces codec','api/metainfo/metainfo.go')],None,['Info.GetLength','Info.GetPieceLength','Pieces.UnmarshalBencoding','Pieces.MarshalBencoding'])
p('M02','The info hash is the SHA-1 of the exact info bytes received',
 "When a torrent file is parsed, its info hash is the SHA-1 of exactly the bytes of the info dictionary as they appeared in the input, including keys the client does not know, and a failed parse leaves no partial result behind in the info object.",
 ['inputs'],"every info dictionary, with unknown keys and any field values",
 "Tests hash one sample; re-encoding instead of hashing the raw bytes would agree on it.",
 ['api/metainfo/metainfo.go','bencode/decode.go'],[('Info.UnmarshalBencoding','api/metainfo/metainfo.go'),('raw capture of a value handed to a custom decoder','bencode/decode.go')],None,['Info.UnmarshalBencoding'])
p('T01','Announce requests survive encoding and decoding',
 "Decoding the query string produced from an announce request gives back the same info hash, peer id, address, port, uploaded, downloaded, left, event and compact flag, for every value of these fields. Decoding a query whose number fields do not parse returns an error rather than wrong numbers.",
 ['inputs'],"every field value, including zero, negative, empty and binary ones",
 "Tests use one or two sample requests.",
 ['api/tracker/tracker.go'],[('Request.Encode/Decode','api/tracker/tracker.go')],None,['Request.Encode','Request.Decode'])
p('T02','Tracker peer lists decode exactly and hostile ones are errors',
 "A compact peer string decodes to one peer per 6 bytes, in order, with the dotted IPv4 address and big-endian port it spells, encoding such a list gives back the same bytes, and encoding a peer that has no IPv4 address is an error. A tracker reply that is malformed (wrong length, missing or mistyped entries) is reported as an error and never crashes the client.",
 ['inputs'],"every compact string, every decoded list of dictionaries",
 "Tests cover two well-formed lists; hostile replies are not exercised.",
 ['api/tracker/tracker.go'],[('compactPeers/parseCompactPeers/parsePeers','api/tracker/tracker.go'),('Peers codec','api/tracker/tracker.go')],None,['Peers.UnmarshalBencoding','Peers.MarshalBencoding'])
p('T03','The tracker lists live other peers and nobody else',
 "For an announce to a known torrent the tracker's reply lists each registered peer that is not stopped and announced within the last minute, exactly once, except the announcing address itself, and the announce records or refreshes the announcing peer with its event and time. Announces with an unknown info hash, an unusable address or a zero or missing port are answered with a failure and change no registration.",
 ['inputs','histories'],"every announce request against every registration state",
 "There are no tests for the tracker server at all.",
 ['pex/http.go'],[('HTTP.ServeHTTP','pex/http.go')],[('Torrent.Peers','addr -> registration','pex/http.go')],['HTTP.ServeHTTP'])
p('T04','Tracker tiers are tried in order and a working tracker moves to the front',
 "An announce tries the trackers tier by tier in order and stops at the first that succeeds, returning its reply; it reports an error only when every tracker failed. The tracker that succeeded becomes the first of its tier with the relative order of the others kept, and no tracker is ever lost, duplicated or moved between tiers.",
 ['inputs','fault_sequences'],"every tier layout and every pattern of tracker failures",
 "No test imports this package.",
 ['p2p/multitracker.go'],[('Multitracker.get','p2p/multitracker.go'),('NewMultitracker','p2p/multitracker.go')],[('TrackerTiers','tiers of trackers','p2p/multitracker.go')],['Multitracker.Announce'])
p('E01','Encoder output is one canonical bencode value',
 "When encoding succeeds for a value that is not nil, the output is exactly one well-formed bencode value: strings are their decimal byte length, a colon and the bytes; integers are i, the decimal digits, e; lists are l, the elements in order, e; dictionaries are d, the entries with their string keys in ascending byte order, e. Nil entries are left out together with their key, so the result always stays well-formed.",
 ['inputs'],"every encodable Go value, at any nesting",
 "Tests sample about thirty values.",
 ['bencode/encode.go'],[('Encoder.encode*','bencode/encode.go')],None,['Marshal','Encoder.Encode'])
p('D01','Decoder accepts exactly canonical bencode and never crashes',
 "Decoding any byte string returns an error or succeeds, and never panics, whatever the bytes are. Values that are skipped or handed raw to a custom decoder are accepted only when they are canonical: integers without leading zeros or negative zero, strings of exactly the announced length, dictionary keys strictly ascending, every list and dictionary terminated; decoding consumes exactly the bytes of that one value.",
 ['inputs'],"every byte string and every supported target",
 "Tests sample about fifty short inputs; hostile lengths, truncations and nestings are not reached.",
 ['bencode/decode.go'],[('Decoder.consume*','bencode/decode.go'),('Decoder.decode*','bencode/decode.go')],None,['Unmarshal','Decoder.Decode'])
p('D02','Decoded scalars equal the encoded ones or the decode fails',
 "A bencoded integer decodes to exactly that integer, and if it does not fit the target's integer type the decode is an error, never a truncated or wrapped number; a bencoded string decodes to exactly its bytes.",
 ['inputs'],"every integer text, every string, every integer width and signedness",
 "Tests never decode an out-of-range number.",
 ['bencode/decode.go'],[('decodeInt/decodeUint/decodeString','bencode/decode.go')],None,['Unmarshal'])
p('S01','Only blocks that fit the piece geometry are accepted',
 "A block is accepted only if its piece index exists, its offset is a multiple of 16 KiB inside the piece, and its length is 16 KiB or, for the last block, what remains of the piece; every other block, whatever index, offset or length a peer sends, is refused with an error, never a crash, and leaves the store unchanged. A block already present is refused as existing and never overwritten.",
 ['inputs','histories'],"every torrent geometry, index, offset, length and prior store state",
 "Tests try five blocks of one geometry.",
 ['storage/storage.go','storage/torrent.go'],[('checkBlockSize','storage/storage.go'),('Piece.putBlock','storage/torrent.go'),('Storage.PutBlock','storage/storage.go')],[('Piece.blocks','received blocks','storage/torrent.go')],['Storage.PutBlock'])
p('S02','A piece counts as complete only after its SHA-1 matched',
 "When blocks are stored, a piece becomes complete, and its bit in the torrent's bitfield becomes set, only if the SHA-1 of its blocks in order equals the piece's hash in the metainfo, and what is then stored for the piece is exactly those bytes. On a mismatch a checksum error naming the piece is reported to the caller and to those waiting on the piece, and the piece stays incomplete.",
 ['inputs','histories'],"every block content and order of arrival, and every piece",
 "Tests only store correct data for one geometry.",
 ['storage/storage.go','storage/torrent.go'],[('coalesceBlocks','storage/storage.go'),('completePiece','storage/torrent.go')],[('Bitfield','verified pieces','storage/torrent.go')],['Storage.PutBlock','Storage.GetPiece'])
p('S03','Served and assembled bytes are the torrent content',
 "The finished download is the pieces' bytes in index order, written as the single file or cut at the file lengths into the listed files. A read of a block returns exactly the requested number of bytes of that content at the requested position, or an error; a piece that is not complete is never read.",
 ['inputs'],"every geometry, file layout and read request",
 "Tests read a few aligned blocks of two torrents.",
 ['storage/storage.go'],[('getBlock*','storage/storage.go'),('coalescePieces*','storage/storage.go')],None,['Storage.GetBlock'])
p('S04','A torrent cannot make the client touch files outside its directories',
 "Whatever names and file paths a torrent file contains, every file or directory the store creates, opens, renames or removes lies inside the configured target directory or work directory; a torrent whose name or paths would escape them is refused with an error.",
 ['inputs'],"every torrent name and file path list",
 "Tests use only harmless names.",
 ['storage/storage.go','storage/torrent.go'],[('path construction','storage/storage.go')],None,['Storage.Load','Storage.PutBlock','Storage.GetBlock'])
p('S05','Resuming recovers exactly the pieces on disk',
 "Loading a store marks complete exactly the pieces whose files lie in the work directory, or all pieces when the finished download exists, each once; files in the work directory that are not a piece of this torrent are ignored and never crash the load or count as a piece.",
 ['inputs','histories'],"every content of the work and target directories",
 "Tests reload one partial torrent.",
 ['storage/storage.go'],[('Storage.Load','storage/storage.go')],None,['Storage.Load'])
p('L01','Locks are always released and taken in one order',
 "No operation of the store, the peer server, a peer connection or the tracker returns while still holding a lock it took, on any path including errors, or releases a lock it does not hold. No operation takes a lock it already holds, and all operations take locks in one fixed order, so that concurrent use cannot deadlock on them.",
 ['schedules','inputs'],"every path of every operation, hence every schedule of concurrent operations",
 "Tests run operations one at a time; a missing unlock or an inverted order shows only on error paths or under contention.",
 ['storage/storage.go','storage/torrent.go','p2p/server.go','p2p/peer.go','pex/http.go','bencode/encode.go'],[('mutexes','storage/torrent.go, p2p/server.go, p2p/peer.go, pex/http.go')],None,['Storage','Server','Peer','HTTP'])
p('N01','Data is served only to unchoked peers and only as requested',
 "A block request from a peer that is choked, or that the peer cancelled beforehand, sends no data. Otherwise the one piece message sent carries exactly the requested index, offset and the stored bytes there, and the upload counters of the peer and the server grow by exactly the number of bytes sent, and only when sending succeeded.",
 ['inputs','histories'],"every request and every connection state",
 "No test imports this package.",
 ['p2p/peer.go'],[('HandleRequest/HandleCancel','p2p/peer.go')],[('canceledRequests','cancelled requests','p2p/peer.go')],['Peer.HandleRequest','Peer.HandleCancel'])
p('N02','Incoming peer messages have exactly their protocol effect',
 "Choke and unchoke, interested and not-interested from a peer set exactly the corresponding state of that peer; a have or bitfield message records exactly the announced pieces for that peer; a piece message stores the block and counts it as downloaded by its length once only if the store newly accepted it. Piece indices a peer announces beyond the torrent's piece count are an error and never a crash.",
 ['inputs','histories'],"every message and every connection state",
 "No test imports this package.",
 ['p2p/peer.go','p2p/server.go'],[('HandleMessage/HandleHave/HandlePiece','p2p/peer.go'),('RecordIndex','p2p/server.go')],[('Peer.Bitfield','pieces the peer has','p2p/peer.go')],['Peer.HandleMessage'])
p('N03','A connection is admitted only after a matching handshake',
 "A peer becomes active only after a handshake whose info hash equals ours and whose peer id is not our own and, when the tracker told us an id, equals that id; at most 50 peers are active at once, and a peer that is already active is not admitted again. Disconnecting removes the peer from every registry, and an address that was blocked is neither queued for connection nor dialled.",
 ['inputs','histories'],"every handshake and every registry state",
 "No test imports this package.",
 ['p2p/server.go','p2p/peer.go'],[('Connect/disconnect/Block/AddPeer/dialPeer','p2p/server.go'),('Handshake','p2p/peer.go')],[('activePeers','admitted peers','p2p/server.go')],['Server.Connect','Server.Disconnect','Server.Block','Server.AddPeer'])
p('N04','Outgoing requests follow choke state and cover a piece exactly',
 "No block request is sent to a peer that has choked us, and choke, unchoke, interested and not-interested messages are sent exactly when our state changes. Downloading a piece requests blocks that cover the piece exactly, without gap or overlap, each of 16 KiB except a shorter last one.",
 ['inputs','histories'],"every piece length and every connection state",
 "No test imports this package.",
 ['p2p/peer.go'],[('Send/Choke/Unchoke/Interest/NotInterest','p2p/peer.go'),('requestPiece','p2p/peer.go')],None,['Peer.Send','Peer.Choke'])
