"""Writes properties.jsonl (the text of the properties is here)."""
import json, os
D = "src/shared/dns/"; Z = "src/nameserver/zones/"; R = "src/resolver/back_end/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Decoding any byte string terminates without crashing",
  "Decoding any byte string as a DNS message, header, question, record or name ends with a value or an error: it never panics, never reads outside the bytes given, never overflows and never loops forever. Compression pointers (forward, backward, to themselves, beyond the end) are followed a bounded number of times.",
  ["inputs"], "every byte string of any length", "the tests never decode a message; the guarantee is about all byte strings, most of them hostile",
  [D+"message.rs", D+"header.rs", D+"questions.rs", D+"records.rs", D+"name.rs", D+"utils.rs", "src/shared/buffer/buffer.rs"],
  [("jump limit and bounds of pointers", D+"name.rs"), ("check_end on every read", D+"utils.rs"), ("read limits of the buffer", "src/shared/buffer/buffer.rs")],
  ["Message::decode_from_bytes", "Header::decode_from_bytes", "Record::decode_from_bytes", "Question::decode_from_bytes", "Name::from_bytes"])
p("C02", "A decoded message is what RFC 1035 says its bytes mean",
  "A message is accepted exactly when its bytes are a well formed RFC 1035 message of a standard query with supported types and classes, and every header field, name (compression included), type, class, TTL and record data of the result is the one in the bytes, in order. Entries of unknown types are skipped without disturbing what follows; anything else which is malformed, unsupported, truncated or has a data length which does not match its data is refused with an error which tells unsupported features (operation codes, types, classes) from malformed messages.",
  ["inputs"], "every byte string", "the tests never decode a message; correctness of every field for all layouts (compression, section counts, lengths) cannot be sampled",
  [D+"message.rs", D+"header.rs", D+"questions.rs", D+"records.rs", D+"name.rs", D+"types.rs", D+"class.rs", D+"errors.rs"],
  [("section loops which skip unknown types", D+"message.rs"), ("per type data decoders checking the data length", D+"records.rs"), ("bit fields of the header", D+"header.rs")],
  ["Message::decode_from_bytes"])
p("C03", "Encoding then decoding a message gives the same message",
  "Encoding any well formed message (counts equal to the number of entries carried, supported types, class IN) and decoding the bytes gives back the same header, questions and records in the same order; WKS ports come back as the same set. The data length field written for a record is always the length of its data.",
  ["inputs"], "every well formed message, of any size", "the tests only cover the bit buffer; the round trip is over all names, record types and sections",
  [D+"message.rs", D+"header.rs", D+"questions.rs", D+"records.rs", D+"name.rs", D+"utils.rs"],
  [("per type data encoders", D+"records.rs"), ("header encoder", D+"header.rs"), ("name encoder", D+"name.rs")],
  ["Message::encode_to_bytes", "Message::decode_from_bytes"])
p("C04", "Responses for UDP are truncated on entry boundaries within 512 bytes",
  "The bytes produced for UDP are never more than 512 and are the header followed by the longest sequence of whole entries (questions, answers, authorities, additionals, in order) which fits, with section counts equal to the entries kept. The truncation flag is set when at least one entry was dropped and is otherwise the one of the message; when everything fits the bytes are those of the full encoding.",
  ["inputs"], "every well formed message, every size around the limit", "no test encodes a message; off by one errors only show at specific sizes and sections",
  [D+"message.rs", D+"header.rs", "src/shared/buffer/buffer.rs"],
  [("encode_to_bytes_trunc", D+"message.rs"), ("truncate", "src/shared/buffer/buffer.rs")],
  ["Message::encode_to_bytes_trunc"])
p("C05", "Only valid names exist and zone containment compares whole labels",
  "A text is accepted as a name exactly when it is the root, or a sequence of dot terminated labels of 1 to 63 ASCII letters, digits and hyphens which begin and end with a letter or digit, 254 characters at most in total. A name is inside a zone exactly when the labels of the zone are the last labels of the name (every name is inside the root), so a name which merely ends with the text of a zone is outside of it.",
  ["inputs"], "every text and every pair of names", "no test creates a name",
  [D+"name.rs"], [("validate_name and validate_label", D+"name.rs"), ("is_in_zone", D+"name.rs")],
  ["Name::from_string", "Name::is_in_zone", "Name::is_in_zone_root", "Name::is_only_in_auth_zone"])
p("C06", "The nameserver answers from its zone data",
  "For a valid query the nameserver replies Refused to names outside its zone; for names at or below a configured sub zone it replies with a non authoritative referral carrying all the NS records of that sub zone and the known addresses of those nameservers inside the sub zones (the first 65535 records of a section if there are more); for other names it replies authoritatively with exactly the records of the name and type, or else the CNAME of the name, or else NxDomain with the SOA record of the zone. The reply repeats the question and its counts are those of the records it carries.",
  ["inputs", "configurations"], "every loaded zone and every query", "no test builds a zone or a handler",
  ["src/nameserver/handler.rs", Z+"parser.rs", D+"name.rs"],
  [("handle_query, handle_auth_zone, handle_subzone, handle_nx_err", "src/nameserver/handler.rs"), ("Zone::get", Z+"parser.rs")],
  ["NameserverHandler::handle_request"])
p("C07", "Every request with a readable header gets exactly one well formed reply",
  "For any bytes received, the nameserver and the resolver send exactly one reply when a header can be decoded and none otherwise, and never panic. The reply has the id, operation code and recursion desired flag of the request, the response flag set, reserved bits zero and the truncation flag clear before truncation; it says FormErr for malformed requests (a response, not exactly one question, answers or authorities present, undecodable), NotImp for unsupported operation codes, types and classes, and can itself be encoded, and decoded unless its operation code is an unsupported one.",
  ["inputs"], "every byte string received as a request", "no test exercises a handler",
  ["src/nameserver/handler.rs", "src/resolver/handler.rs", "src/shared/net/udp_server.rs", "src/shared/net/tcp_server.rs", D+"message.rs"],
  [("handle_decode_err, handle_err, validate_dns_request, resp_header_from_req_header", "src/nameserver/handler.rs"), ("the same functions of the resolver", "src/resolver/handler.rs")],
  ["NameserverHandler::handle_request", "ResolverHandler::handle_request"])
p("C08", "Zones which load are well formed and safe to serve",
  "When zone files are accepted, the zone has exactly one SOA record, at its top node, and NS records only at its top node; every record is of class IN, of a supported type, inside the zone, outside every sub zone, with a TTL not lower than the SOA minimum. Every sub zone has NS records, only at its top node, only NS and A records, TTLs not lower than its minimum, addresses for every nameserver which lies inside a sub zone, and no address which belongs to no nameserver; anything else is refused with an error.",
  ["inputs", "configurations"], "every set of zone files", "no test parses a zone file",
  [Z+"parser.rs", Z+"parser_auth.rs", Z+"parser_sub.rs", Z+"errors.rs"],
  [("validate_auth_zone, validate_subzone", Z+"parser.rs"), ("ensure_* checks", Z+"errors.rs"), ("parse_starting_soa_record", Z+"parser_auth.rs")],
  ["parse_zone_files", "Zone::get", "Zone::get_all_of_type"])
p("C09", "The zone file tokenizer reads any file and follows master file rules",
  "Reading tokens from any file ends with the end token or an error, without panics or endless loops. Spaces separate tokens, line ends outside parentheses (and only those) yield a newline, comments and blank lines are dropped, a backslash takes the next character literally in words, directives and quoted strings, quotes keep spaces, semicolons and parentheses, digits only words are numbers up to 4294967295, and unbalanced parentheses or quotes are errors; a peeked token is the next one returned.",
  ["inputs"], "every file contents", "no test uses the tokenizer",
  [Z+"tokens.rs"], [("Tokenizer::next and process_* functions", Z+"tokens.rs"), ("parse_escape", Z+"tokens.rs")],
  ["Tokenizer::next", "Tokenizer::peek", "Tokenizer::next_after_blanks", "Tokenizer::peek_after_blanks"],
  "pub mod verif re-exports the tokenizer under cfg(ariadne_verif)")
p("C10", "The cache returns the last value set and never an expired one",
  "After any sequence of operations a lookup returns the value most recently set for that key (with its expiry) if the key was not removed and its time to live has not passed, and nothing otherwise; operations on a key leave the others unchanged and cleaning removes expired entries only. Setting or removing returns the previous value only if it had not expired. Once the cleaning routine is started it cleans the cache after each period, for as long as the program runs.",
  ["inputs", "histories"], "every sequence of operations, keys, values and times to live", "no test uses the cache",
  [R+"cache.rs"], [("is_expired checked on every access", R+"cache.rs")],
  ["Cache::set", "Cache::get_clone", "Cache::remove", "Cache::on_found", "Cache::clean"])
p("C11", "Answers served from the cache are the saved records with lowered TTLs",
  "Records served from the cache are those last received for that name and type, never after the lowest TTL received with them has passed, and each with a TTL which is the time left, at most the lowest TTL received. Records of different owners or types never mix under one entry and a TTL of zero is not served from the cache. The answers, aliases and delegations a lookup uses are saved, and what the cache holds is used: upstream servers are asked only about names and types which were searched in the cache and not found (nor an alias of the name), beginning with the nameservers told with the alias which led to the name or else with the ones of the closest zone which the cache knows.",
  ["inputs", "histories"], "every history of upstream responses and lookups, every TTL", "no test uses the resolver or its cache",
  [R+"recursive.rs", R+"cache.rs"], [("search_records_in_cache, save_records_in_cache, save_nss_in_cache", R+"recursive.rs")],
  ["Resolver::new_lookup(..).perform()"])
p("C12", "Delegations are followed only towards the searched name and terminate",
  "From a response which refers to other nameservers the resolver follows only NS records whose zone contains the searched name, is inside the zone of the queried nameserver and has strictly more labels; from one which holds an alias, only NS records whose zone contains the target of the alias and is inside the zone of the queried nameserver. It uses (and caches) only nameserver addresses for names inside the zone of the queried nameserver. Whatever the upstream servers answer, a lookup ends after a bounded number of queries and nested lookups, with a result or an error.",
  ["inputs", "histories"], "every sequence of upstream responses", "no test performs a lookup",
  [R+"requests.rs", R+"recursive.rs", R+"utils.rs"],
  [("extract_next_nss_for_subzone, extract_next_nss_for_cname, extract_ns_addrs", R+"requests.rs"), ("MAX_SUB_LOOKUPS, detect_zones_loop", R+"recursive.rs")],
  ["Resolver::new_lookup(..).perform()"])
p("C13", "CNAME chains are returned whole, in order, and bounded",
  "A successful answer reached through aliases is the chain of CNAME records from the searched name, each owned by the target of the one before, followed by the records of the searched type owned by the last target. Loops, and chains of max_cname_redir redirections or more, end with an error instead of an answer, and an alias is never accepted while looking for the address of a nameserver.",
  ["inputs", "histories"], "every alias graph and configuration", "no test performs a lookup",
  [R+"recursive.rs", R+"utils.rs", R+"requests.rs"],
  [("perform_inner, handle_cname", R+"recursive.rs"), ("detect_cname_loops, extract_records", R+"utils.rs")],
  ["Resolver::new_lookup(..).perform()"])
p("C14", "Only matching upstream responses are believed",
  "An upstream datagram is used only if it decodes, is a response, carries the id of the query and exactly the question asked; then it is an answer only through records of the searched name and type, an alias only through a CNAME of the searched name, and a denial only if it is authoritative NxDomain. Anything else, and no datagram within the read timeout of the configuration, counts as a failed attempt: at most the configured number of attempts is made per nameserver, the next nameserver is tried, and a lookup which has no usable response ends with an error, never a panic (and with an error only if all the nameservers which may be queried failed, or its aliases may not be followed).",
  ["inputs", "fault_sequences"], "every datagram received from upstream, every sequence of failures", "no test sends a query",
  [R+"requests.rs", R+"recursive.rs"],
  [("send_query, send_query_with_retries, perform_request", R+"requests.rs"), ("query_nameservers_iteratively", R+"recursive.rs")],
  ["Resolver::new_lookup(..).perform()"])
p("C15", "Replies reach the client whole, over UDP and TCP",
  "Over TCP a request is the two byte length and that many bytes however they are split, and the reply is the two byte length of the encoded message followed by exactly those bytes, or nothing if the message is longer than 65535 bytes. Over UDP the reply is one datagram of at most 512 bytes to the sender of the request. Every connection accepted and every datagram received is given to the handler once, with its own bytes; one which cannot be served does not stop the server from serving the others: a client which is silent is given up after the timeouts of the configuration, which are set on its connection before it is used, and a connection which fails takes no thread with it. When one of the two servers ends, and only then, the other one is told to stop.",
  ["inputs", "schedules"], "every request, every segmentation of the stream and every reply size", "no test opens a socket",
  ["src/shared/net/tcp_server.rs", "src/shared/net/udp_server.rs", "src/shared/net/setup.rs"],
  [("TcpRequest::read, TcpResponse::reply", "src/shared/net/tcp_server.rs"), ("UdpResponse::reply", "src/shared/net/udp_server.rs"), ("start_servers", "src/shared/net/setup.rs")],
  ["start_servers over loopback sockets"])
p("C16", "Accepted jobs run exactly once and shutdown waits for them",
  "Each job given to the thread pool is executed exactly once by one of its threads, at most as many at a time as the pool has threads, as many at a time as there are threads free (a job never waits for another while a thread is idle), and dropping the pool returns only after all the jobs given to it are done. This is for jobs which return (the behaviour with jobs which panic is not stated).",
  ["schedules"], "every interleaving of workers and submitters", "no test uses the thread pool; it is about schedules",
  ["src/shared/thread_pool.rs"], [("channel shared by the workers", "src/shared/thread_pool.rs"), ("Worker::new, the loop of a thread", "src/shared/thread_pool.rs"), ("Drop for ThreadPool", "src/shared/thread_pool.rs")], ["ThreadPool::new", "ThreadPool::execute", "dropping a ThreadPool"])
p("C17", "Configurations which load are usable and used",
  "A configuration file is accepted only if it is JSON of the documented shape, the addresses of both servers are IP addresses, timeouts, thread counts, resolver limits and cache parameters are not zero and zone names are valid names; every such configuration is accepted and its values are those in the file. The programs started with it run both servers at the addresses and ports, with the timeouts and threads, of the file, and serve the zones, or resolve with the limits, timeouts and cache parameters, of the file; they refuse to run, with an exit code which is not zero, if they are not given exactly one argument, the configuration is refused or its zones cannot be loaded.",
  ["configurations"], "every configuration file", "no test loads a configuration or starts a program",
  ["src/nameserver/conf.rs", "src/resolver/conf.rs", "src/bin/nameserver.rs", "src/bin/resolver.rs", "src/shared/net/setup.rs"],
  [("Conf::validate", "src/nameserver/conf.rs"), ("Conf::validate", "src/resolver/conf.rs"), ("main, process_zones_confs", "src/bin/nameserver.rs"), ("main", "src/bin/resolver.rs"), ("start_servers", "src/shared/net/setup.rs")],
  ["Conf::from_file", "the programs nameserver and resolver"])
p("C18", "Numeric and textual codes and character strings convert both ways",
  "Converting a record type, class or operation code to its number or name and back gives the same value, the numbers and names are those of RFC 1035, and all other numbers and names are refused. Supported types are exactly A, NS, CNAME, SOA, WKS, PTR, HINFO, MX and TXT; character strings of up to 255 bytes survive encoding and decoding, longer ones and ones which are not UTF-8 are refused.",
  ["inputs"], "every number, every text", "no test converts a code",
  [D+"types.rs", D+"class.rs", D+"header.rs", D+"utils.rs"], [("from_num, to_num, from_str, to_str", D+"types.rs"), ("encode_character_string, decode_character_string", D+"utils.rs")],
  ["RecordType", "Class", "OpCode", "encode_character_string"])
p("C19", "The bit buffer reads and writes exactly the bits asked for",
  "Reading n bits at any position returns those bits, most significant first, and moves the position by n, or returns nothing and moves nothing if fewer remain; writing n bits changes exactly those bits, extends the data as needed and keeps all the others. Truncation keeps the bits before the limit, and positions never go beyond the data.",
  ["inputs", "histories"], "every sequence of reads, writes, moves and truncations at any alignment", "the 11 tests sample a few positions and widths",
  ["src/shared/buffer/buffer.rs"], [("read_bits, write_bits, truncate", "src/shared/buffer/buffer.rs")], ["BitsBuf"])
p("C20", "The records served are those written in the zone files",
  "Loading zone files yields exactly the records written in them: relative names are completed with the current origin and @ stands for it, an absent owner is the origin, an absent TTL is that of the previous record (or the starting one), an absent class is IN, TTL and class come in either order, and record data is read as written. $ORIGIN changes the origin of what follows in that file only, and $INCLUDE adds the records of the file named, with the origin given, leaving the origin and TTL of the including file unchanged.",
  ["inputs"], "every set of zone files", "no test parses a zone file",
  [Z+"parser_auth.rs", Z+"parser_sub.rs", Z+"utils.rs", Z+"parser.rs"],
  [("parse_entries, parse_record, parse_include, parse_origin", Z+"parser_auth.rs"), ("adjust_name, parse_ttl_class", Z+"utils.rs"), ("Zone::insert, Zone::extend", Z+"parser.rs")],
  ["parse_zone_files", "Zone::get"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
