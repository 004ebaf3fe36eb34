"""What each check verifies and searches.

mods      modules whose obligations decide the property (all their functions and lemmas)
fns       functions of these modules the property depends on (regular expressions; default: all)
theorems  the lemmas which state the property over the contracts
rule      how the cases of the search are made
skip      parts of contracts which state another property (regular expression)
"""
BUF, NAME = "shared::buffer::buffer", "shared::dns::name"
TOKENS = "nameserver::zones::tokens"
ZONES = "nameserver::zones::"
DNS = ["shared::dns::" + m for m in ("class", "errors", "header", "message", "name", "questions", "records", "types", "utils")]
SEARCH = "a bounded search replays inputs on the real code"
STD = "assumes the contracts of std functions and types listed in the evidence"
DECODE = r"::(from_bytes|decode_\w+|check_end|read_\w+|parse_wks_ports|from_raw_bytes|set_read_pos|from_num|from|is_supported\w*|validate_\w+|inner_err)$"
ENCODE = r"::(to_bytes|encode_\w+|write_\w+|set_write_pos|write_pos|into_vec|truncate|new|to_num|node|class|ttl|record_type|is_supported\w*|len)$"

# what C11 states of a lookup, beside what C12, C13 and C14 state of it
USED = r"\b(in_cache|all_in_cache|alias_in_cache|saved|all_saved|record_saved|not_cached|begins|aliased|unknown_from|closest|cached_nss|barren)\b"

P = {
    "C01": dict(note="absence of panics, overflows, out of bounds accesses and endless loops proved for all bytes by Verus on the extracted decoders; %s; %s" % (STD, SEARCH),
                mods=[BUF] + DNS, fns=[DECODE], kinds=r"precondition|possible |decreases|terminat|unreachable|index",
                theorems=[],
                rule="random bytes, valid messages with changed bytes, messages made of pointers; non trivial: the header is decoded"),
    "C02": dict(note="the decoders are proved by Verus to compute the RFC 1035 decoding function of the overlay for all bytes; %s; %s" % (STD, SEARCH),
                mods=[BUF] + DNS, fns=[DECODE], theorems=["theorem_header_codes", "theorem_type_codes", "theorem_class_codes"],
                rule="messages built by an independent encoder with compression, unknown types and damages, decoded and compared with an independent decoder; non trivial: the header is decoded"),
    "C03": dict(note="encoders and decoders are proved by Verus against byte level functions, whose composition is proved to be the identity (theorem_round_trip, WKS ports as sets) for all messages; %s; %s" % (STD, SEARCH),
                mods=[BUF] + DNS, fns=[DECODE, ENCODE],
                theorems=["theorem_round_trip", "theorem_wks_round_trip", "theorem_name_round_trip", "theorem_record_round_trip", "theorem_data_round_trip",
                          "theorem_header_round_trip", "theorem_question_round_trip", "theorem_char_strings"],
                rule="random messages with all the record types encoded and decoded; non trivial: at least one record"),
    "C04": dict(note="the truncating encoder is proved by Verus to return the longest sequence of whole entries within 512 bytes for all messages (is_cut, theorem_truncated, theorem_not_truncated); %s; %s" % (STD, SEARCH),
                mods=[BUF] + DNS, fns=[ENCODE], theorems=["theorem_truncated", "theorem_not_truncated"],
                rule="random messages around 512 bytes compared with their entries encoded one by one; non trivial: something is dropped"),
    "C18": dict(note="the tables and the character strings are proved by Verus for all numbers, texts and strings; %s; %s" % (STD, SEARCH),
                mods=["shared::dns::" + m for m in ("types", "class", "header", "utils")],
                fns=[r"(from_num|to_num|from_string|from_str|to_str|is_obsolete|is_experimental|is_supported\w*|decode_character_string|encode_character_string|is_valid_character_string|check_end|decode_(op|resp)_code)$"],
                theorems=["theorem_type_codes", "theorem_type_texts", "theorem_class_codes", "theorem_header_codes", "theorem_char_strings"],
                rule="all the numbers, texts near the names, strings around 255 bytes; non trivial: accepted"),
    "C09": dict(note="every token function is proved by Verus to compute the functions nx, pk, nx_nb and pk_nb of the overlay on the lines of the file, for all files; theorem_tokens_end: reading always ends; theorem_peek: a peeked token comes next; assumes the contracts of std functions listed in the evidence, and files of fewer than 2^47 lines; a bounded search replays files on the real code",
                mods=[TOKENS], theorems=["theorem_tokens_end", "theorem_peek"],
                rule="files made of pieces of master file syntax, read with random sequences of operations and compared with an independent tokenizer; non trivial: at least three tokens"),
    "C08": dict(note="parse_zone_files is proved by Verus, for all configurations and files, to load exactly the records described by load() and to refuse the rest; theorem_load: what load() accepts has one SOA record, NS records at the top, owners inside the zone and outside the sub zones, supported types, class IN, TTLs not below the minimum, addresses for the nameservers inside sub zones and no others; assumes the contracts of std functions listed in the evidence, and that the text a path holds (uninterpreted) is read once per file; a bounded search replays file sets on the real code",
                mods=[ZONES + m for m in ("errors", "parser", "parser_auth", "parser_sub")],
                fns=[r"::(parse_zone_files|validate_\w+|search_\w+|ensure_\w+|parse_auth_zone_file|parse_sub_zone_file|parse_included_file|parse_entries|parse_record|parse_origin|parse_include|parse_starting_soa_record)$", r"::Zone::"],
                theorems=["theorem_load", "theorem_auth_records", "theorem_entries", "theorem_sub_records"],
                rule="sets of zone files with sub zones, includes and damages, loaded and compared with an independent loader; non trivial: the zone loads, or it fails to after its SOA record"),
    "C20": dict(note="every function which reads zone files is proved by Verus, for all token streams, to compute the parsing functions p_record, p_data, p_ttl_class, entries, sub_entries of the overlay, and a zone to hold exactly the records of the list they give (Zone::is); assumes the contracts of std functions listed in the evidence (IPv4 texts and upper case are uninterpreted); a bounded search replays file sets on the real code",
                mods=[ZONES + m for m in ("utils", "parser", "parser_auth", "parser_sub")],
                fns=[r"zones::(utils|parser_auth|parser_sub)::", r"::(parse_zone_files|Zone::\w+)$"],
                theorems=["theorem_class_texts"],
                rule="sets of zone files with relative names, @, absent fields, both orders, origins and includes, loaded and compared with an independent loader; non trivial: the zone loads"),
    "C17": dict(note="validate and from_file are proved by Verus, for all values and texts, to accept exactly the configurations described by conf_ok and to return the value of the file unchanged; the value of a JSON text and the texts of IP addresses are the ones of serde_json and std::net (uninterpreted); the programs are under contract too: main of each ends only after its servers ran with the values of the configuration (runs), and calls exit, with a code which is not zero, only when its arguments, configuration or zones are refused; start_servers launches both servers with the parameters given and waits until one has ended (threads and channels of std assumed); a bounded search replays files on the real code, JSON and addresses included, and runs the programs themselves: the nameserver against the answers of generated zones, the resolver against root servers in a network of its own",
                mods=["nameserver::conf", "resolver::conf", "bin::nameserver", "bin::resolver", "shared::net::setup"], theorems=[],
                rule="configuration files with changed, missing and mistyped fields, compared with an independent reading, and programs started with some of them; non trivial: damaged, or of the resolver, or with sub zones, or a program"),
    "C05": dict(note="proved for all texts by Verus on the extracted functions; assumes the contracts of str and Vec functions listed in the evidence; a bounded search replays inputs on the real code",
                mods=[NAME], fns=[r"name::(Name::(from_string|is_.*|as_ref)|validate_.*)$"],
                theorems=[],
                rule="texts near the limits of labels and names, random texts, pairs of related names; non trivial: at least one name is valid"),
    "C19": dict(note="proved for all buffers and operations by Verus on the extracted functions; assumes contracts of Vec functions listed in the evidence; a bounded search replays operations on the real code",
                mods=[BUF], theorems=[],
                rule="sequences of reads, writes, moves and truncations on a buffer against a list of bits; non trivial: at least one bit is read or written"),
    "C06": dict(note="the query functions of the nameserver are proved by Verus, for all zones which are servable and all queries, to send only the reply described by answers_query (refused, sub, auth, nx), and servable to follow from what the loader accepts (theorem_servable, zones within the size limits stated there); a reply is what may be given to DnsWrite::reply, whose implementations are the subject of C15; assumes the contracts of std functions listed in the evidence; a bounded search replays zone files and queries on the real code",
                mods=["nameserver::handler", ZONES + "parser", NAME],
                fns=[r"nameserver::handler::", r"::(Zone::\w+)$", r"Name::is_in_zone$"],
                theorems=["theorem_servable", "theorem_load"],
                rule="sets of zone files which load, with queries for the names they contain and names near them, answered by the handler and compared with an independent answer; non trivial: a queried name is in the zone"),
    "C10": dict(note="every operation of the cache is proved by Verus against a map of entries for all keys, values, times to live and readings of the clock; theorem_history covers every sequence of operations; atomicity is that of one lock held for the whole operation (a second lock in an operation is refused); the mutex, the clock and HashMap are assumed to do what std documents; the cleaning thread is proved to clean after each period, for ever",
                mods=["resolver::back_end::cache"],
                theorems=["theorem_history", "theorem_steps"],
                rule="histories of up to 60 operations over 1 to 5 keys with times to live from 0 to 2^32 s and pauses, and three threads beside a writer; non trivial: a lookup finds a value"),
    "C15": dict(note="reading a request and writing a reply are proved by Verus, for all messages, against a stream of bytes (TCP) and the datagrams sent (UDP): one frame is read, one whole frame is written or none, one datagram which holds the longest cut of the message within 512 bytes goes to the client; read_exact, write_all and send_to are assumed to do what std documents; the accept and receive loops are proved to give each connection or datagram received to one job, which sets the timeouts, reads that connection or datagram and calls the handler once, or drops it only because the socket failed; a bounded search replays clients over loopback sockets, and crowds of idle connections",
                mods=["shared::net::tcp_server", "shared::net::udp_server", "shared::net::setup", "shared::net::traits"],
                theorems=[],
                rule="up to four concurrent clients over loopback, requests split at random points, cut short and of all lengths, replies around 512 and 65535 bytes; non trivial: all"),
    "C16": dict(note="new, execute, drop and the loop of the workers are proved by Verus against tokens which say what each thread may do next: execute sends one message with its job, a worker takes a message with the lock and runs its job once with the lock released, ends only after a stop, and drop sends one stop for each worker and joins them all; theorem_pool covers every history of these steps: no job runs twice, at most as many at a time as workers, and all ran when the workers ended; the mpsc channel (a queue, each message taken once), the mutex, spawn and join are assumed to do what std documents, and jobs to return; a bounded search replays jobs on the real pool",
                mods=["shared::thread_pool"], theorems=["theorem_pool", "lemma_step"],
                rule="pools of 1 to 8 threads, up to three submitters and 90 jobs of several lengths, some of which wait for each other, dropped at once or later; non trivial: at least one job"),
    "C07": dict(note="both request handlers are proved by Verus to call reply once, for every request which is readable, with a reply which the contracts describe (answers_request of the two handlers: header fields of the request, counts of the records carried, a code or an answer) and which can be encoded, and never for the rest; the resolver's lookups enter by the contract of Lookup::perform; assumes the contracts of std functions listed in the evidence; a bounded search replays requests on the real handlers",
                mods=["nameserver::handler", "resolver::handler", "shared::net::traits"],
                fns=[r"handler::"],
                theorems=[],
                rule="valid queries and damaged requests of every kind given to both handlers (the resolver without upstream servers); non trivial: a reply is sent"),
    "C11": dict(note="the functions which read and write the cache are proved by Verus, for all records, instants and times to live, to store only records of one owner and type, told by a nameserver, with the lowest time to live received, and to give them with the time left; perform is proved to return only records and aliases which are in the cache, query_nameservers_iteratively to be called only for names and types which were searched in the cache and not found, with the nameservers told with the alias or those of the closest zone the cache knows (begins), and the records told to be saved; the operations of the cache are the ones of C10, seen by a thread among others (held); std clocks and containers are assumed to do what std documents; a bounded search replays lookups against upstream servers on loopback",
                mods=["resolver::back_end::recursive", "resolver::back_end::cache", "resolver::back_end::utils"],
                fns=[r"recursive::(search_\w+|save_\w+|generate_domain_hierarchy)$", r"Lookup::(search_\w+|perform_inner|query_nameservers_iteratively|resolve_ns_subquery|handle_cname)$", r"Cache::", r"utils::extract_records$"],
                theorems=["theorem_entries"],
                rule="lookups, some after pauses, in worlds of upstream servers which answer rightly or anything, the records given compared with what was told; non trivial: a lookup is answered"),
    "C12": dict(note="the functions which choose the next nameservers are proved by Verus, for all messages, to follow only the zones next_zone allows and to use only addresses usable allows; the lookup ends for all upstream behaviours (decreases: each delegation is deeper, nested lookups are bounded); assumes the contracts of std functions listed in the evidence; a bounded search replays lookups against upstream servers on loopback",
                mods=["resolver::back_end::requests", "resolver::back_end::recursive", "resolver::back_end::utils"],
                fns=[r"requests::(extract_\w+|is_nameserver_\w+|perform_request)$", r"NextSubzoneNs::", r"Lookup::(query_nameservers_iteratively|resolve_ns_subquery|search_nss_in_cache_with_trace|perform_inner|perform|handle_cname)$",
                     r"recursive::(generate_domain_hierarchy|save_nss_in_cache)$", r"utils::(root_zone_nameservers|detect_zones_loop|extract_records|sort_nameservers)$"],
                theorems=[], skip=USED,
                rule="lookups in worlds of upstream servers which answer rightly or anything, every query they get and what the cache holds compared with what could be believed; non trivial: a lookup is answered"),
    "C13": dict(note="Lookup::perform is proved by Verus, for all upstream behaviours and configurations, to return only a chain of aliases without loops, shorter than max_cname_redir, followed by records of the searched type owned by its end (outcome, chain, found_at), and addresses of nameservers to be found without aliases; assumes the contracts of std functions listed in the evidence; a bounded search replays lookups against upstream servers on loopback",
                mods=["resolver::back_end::recursive", "resolver::back_end::utils", "resolver::back_end::requests"],
                fns=[r"Lookup::(perform|perform_inner|handle_cname|resolve_ns_subquery)$", r"Resolver::", r"utils::(detect_cname_loops|extract_records?)$", r"requests::(perform_request|extract_next_nss_for_cname)$"],
                theorems=[], skip=USED,
                rule="lookups through chains and loops of aliases in worlds of upstream servers, with several limits, compared with the chain of the world; non trivial: a lookup is answered"),
    "C14": dict(note="send_query is proved by Verus, for all datagrams, to return only a response which decodes and has the id and the question of the query sent (believed), perform_request to give it only the meaning the contract states (meaning), and the lookup to end with such a response or an error, without panics; an error is returned only after all the attempts at all the nameservers which may be queried failed or gave messages of no use (dead_end), or after aliases which may not be followed (stuck); the UDP socket is assumed to do what std documents; a bounded search replays lookups against upstream servers on loopback",
                mods=["resolver::back_end::requests", "resolver::back_end::recursive", "resolver::back_end::utils"],
                fns=[r"requests::", r"Lookup::(query_nameservers_iteratively|perform_request_with_trace|perform|perform_inner|handle_cname|resolve_ns_subquery)$", r"utils::(extract_records?|sort_nameservers|detect_zones_loop)$"],
                theorems=[], skip=USED,
                rule="lookups in worlds of upstream servers whose replies are right, damaged, unrelated or missing, the queries they get and the results compared with the messages which fit; non trivial: a lookup is answered"),
}

TODO = "contracts not written yet"
NA = {"C%02d" % i: TODO for i in range(1, 21)}
for i in P:
    del NA[i]
