"""Which contracts decide which property.  own: functions whose obligations ARE the
property; everything else in the module list is verified too, and is an assumption
of the property discharged in the same run (reported, but owned by another property)."""

BASE = ['source_map', 'mapping']
GEN = ['base64', 'base64_vlq', 'array_set'] + BASE + ['util', 'mapping_list', 'decode', 'generator']
CONS = ['array_set'] + BASE + ['util', 'serde', 'serde_json', 'source_map_mappings', 'consumer']
IX = CONS + ['binary_search', 'indexed']
RT = GEN + ['serde', 'serde_json', 'codec', 'source_map_mappings', 'consumer', 'agree', 'roundtrip']
PROPS = {
    'C01': dict(modules=['base64', 'base64_vlq'], own=['base64::encode', 'base64_vlq::*'], lemmas=['base64', 'base64_vlq']),
    'C02': dict(modules=['array_set'], own=['ArraySet::*'], lemmas=['array_set']),
    'C03': dict(modules=BASE + ['util', 'mapping_list'], own=['MappingList::*', 'mapping_list::*', 'Mapping::derived_clone', 'Position::derived_clone'], lemmas=['mapping_list']),
    'C04': dict(modules=['binary_search'], own=['binary_search::*'], lemmas=['binary_search']),
    'C05': dict(modules=BASE + ['util'], own=['util::strcmp', 'util::compare_by_generated_pos_inflated'], lemmas=['util']),
    'C06': dict(modules=GEN, own=['SourceMapGenerator::serialize_mappings', 'SourceMapGenerator::add_mapping?', 'SourceMapGenerator::as_json?', 'Mapping::derived_clone', 'Position::derived_clone', 'Position::derived_default'], lemmas=['decode']),
    'C07': dict(modules=GEN + ['history'], own=['SourceMapGenerator::new', 'SourceMapGenerator::set_source_content', 'SourceMapGenerator::generate_sources_contents', 'SourceMapGenerator::as_json', 'SourceMapGenerator::add_mapping?'], lemmas=['history']),
    'C08': dict(modules=GEN, own=['SourceMapGenerator::validate_mapping', 'SourceMapGenerator::add_mapping'], lemmas=[]),
    'C09': dict(modules=CONS, own=['BasicConsumer::original_position_for', 'BasicConsumer::parse_mappings'], lemmas=[]),
    'C10': dict(modules=CONS, own=['BasicConsumer::generated_position_for', 'BasicConsumer::find_source_index', 'BasicConsumer::parse_mappings'], lemmas=[]),
    'C11': dict(modules=CONS, own=['BasicConsumer::all_generated_position_for', 'BasicConsumer::find_source_index', 'BasicConsumer::parse_mappings'], lemmas=[]),
    'C12': dict(modules=CONS, own=['BasicConsumer::find_source_index', 'BasicConsumer::get_sources', 'BasicConsumer::new', 'BasicConsumer::from_source_map_json', 'SourceMapJson::derived_clone', 'Section::derived_clone'], lemmas=['consumer']),
    'C13': dict(modules=IX, own=['BasicConsumer::source_content_for', 'BasicConsumer::has_contents_of_all_sources', 'BasicConsumer::find_source_index', 'IndexedConsumer::source_content_for', 'IndexedConsumer::has_contents_of_all_sources'], lemmas=[]),
    'C14': dict(modules=IX, own=['IndexedConsumer::from_source_map_json', 'IndexedConsumer::new', 'IndexedConsumer::get_sources', 'consumer::create_consumer', 'SourceMapJson::derived_clone', 'Section::derived_clone', 'Position::derived_clone'], lemmas=[]),
    'C15': dict(modules=IX, own=['IndexedConsumer::original_position_for'], lemmas=[]),
    'C16': dict(modules=IX, own=['IndexedConsumer::find_section_index', 'IndexedConsumer::generated_position_for', 'IndexedConsumer::all_generated_position_for'], lemmas=['indexed']),
    'C17': dict(modules=IX, own=['BasicConsumer::each_mapping', 'IndexedConsumer::each_mapping', 'BasicConsumer::parse_mappings', 'IterOrd::derived_clone', 'Position::derived_clone'], lemmas=[]),
    'C18': dict(modules=RT, own=['SourceMapGenerator::as_string', 'BasicConsumer::from_source_map', 'BasicConsumer::new', 'SourceMapGenerator::serialize_mappings', 'BasicConsumer::original_position_for!normal'], lemmas=['agree', 'roundtrip']),
    'C19': dict(modules=['urls', 'util_url'], own=['util::*', 'UrlType::derived_clone'], lemmas=['urls', 'util_url']),
    'C20': dict(modules=IX + ['codec'], own=['SourceMapJson::serialize', 'SourceMapJson::visit_field', 'SourceMapJson::visit_map', 'Section::serialize', 'Section::visit_field', 'Section::visit_map', 'Position::serialize', 'Position::visit_field', 'Position::visit_map', 'consumer::create_consumer!normal'], lemmas=['codec']),
    'C21': dict(modules=IX, own=['BasicConsumer::compute_column_spans', 'IndexedConsumer::computed_column_spans', 'BasicConsumer::parse_mappings'] + ['%s::%s?' % (c, f) for c in ('BasicConsumer', 'IndexedConsumer') for f in ('original_position_for', 'generated_position_for', 'all_generated_position_for', 'each_mapping', 'source_content_for', 'find_section_index')], lemmas=[]),
    'C22': dict(modules=IX + ['access'], own=['Consumer::*', 'BasicConsumer::consume', 'IndexedConsumer::consume'], lemmas=['access']),
}
ALL_MODULES = ['vshim'] + sorted({m for p in PROPS.values() for m in p['modules']})


def is_own(prop, key, variant=None, tags=None):
    """own entries: 'key' or 'prefix::*', with '!normal'/'!refuse' for one of the two contracts of a
    function, or '?' for only those clauses of its contract that carry this property's tag (//#Cxx)."""
    for pat in PROPS[prop]['own']:
        pat, only = (pat[:-1], True) if pat.endswith('?') else (pat, False)
        pat, _, var = pat.partition('!')
        if not (pat == key or (pat.endswith('::*') and key.startswith(pat[:-1]))):
            continue
        if var and variant and var != variant:
            continue
        if variant is not None and (prop not in tags if (tags or only) else False):
            continue
        return True
    return False

NOTES = {
    'C01': 'Proved for all 2^32 integers: the encoder returns exactly the VLQ digit string (spec enc), reading it back gives the integer, no shorter digit string does; base64::encode equals the standard alphabet on 0..=63 and None elsewhere.',
    'C02': 'Proved for every state and argument: each operation of ArraySet against the abstract listing; the index map holds exactly the first occurrences.',
    'C03': 'Proved for every state: add appends and keeps the sortedness invariant, to_array returns a sorted permutation of everything added. slice::sort_by is assumed to sort.',
    'C04': 'Proved for all sequences of fewer than 2^31-1 elements, all comparison functions and biases, with termination of the recursion and of the walk back.',
    'C05': 'Proved: strcmp and the mapping comparison have exactly the sign of the specified lexicographic order, and that order is reflexive, antisymmetric, transitive and zero only on equal fields.',
    'C06': 'Proved for every valid history and every reordering the list makes: decoding the string by the rules of the format gives the stored mappings in generated order, consecutive equal ones merged; no panic, no overflow. Assumes fewer than 2^31 sources and names.',
    'C07': 'Proved: version, file, root, tables and contents of the generated document, and by induction over the history of add_mapping calls that the tables list every distinct string once in order of first use. util::relative is a deterministic function here (what it returns is C19); writing the JSON text is serde (C20).',
    'C08': 'Proved: a valid mapping (or any, with validation off) is added and changes exactly the tables and the list; an invalid one does not return and has not touched the generator when it panics.',
    'C09': 'Proved for every document whose mappings parse (numbers below 2^31-1, name indices inside the names table), every position and bias, and every state of the consumer: the result is the closest mapping of the line in the stated sense, reported field by field; bad positions do not return. The contracts of the dependency source-map-mappings (parser, original_location_for) are discharged on its registry source in the same run.',
    'C10': 'Proved as C09, for generated_position_for the contract of generated_location_for of the dependency being discharged on its registry source in the same run: the result is the closest mapping of the resolved source; no result exactly when there is none; bad positions on a known source do not return.',
    'C11': 'Proved: the returned list is, as a multiset, exactly the matching group of the document; the contract of all_generated_locations_for of the dependency and its iterator is discharged on its registry source in the same run.',
    'C12': 'Proved for every history of lookups (the cache is part of the state and its invariant says it holds exactly resolutions): the index is that of the first source whose URL equals the name resolved against the map URL, else the source root. util::compute_source_url is a deterministic function here (what it returns is C19).',
    'C13': 'Proved for all maps, names and flags, with and without sections: content of the resolved source or nothing; refusal exactly where stated; has_contents_of_all_sources in both directions.',
    'C14': 'Proved for all documents with offsets in 0..2^31-1 whose section maps have sources: accepted exactly if version is 3, no URL, offsets ordered; then section i is made of the i-th entry. The rayon iterator is read as its order-preserving sequential meaning (assumed of rayon; the extraction rejects shared mutable state in its closure, since Verus has no such thing); schedules are exercised in the replay.',
    'C15': 'Proved for every position and every sections list: the answer is that of the last section at or before the position, asked for the relative position, moved back; no overflow, no panic.',
    'C16': 'Proved: the first section that knows the source answers; the position(s) moved by its offset; nothing exactly when nobody knows it or it has no answer.',
    'C18': 'Proved for every history of valid mappings: the lemma lemma_round_trip over the contracts of as_string, from_source_map and original_position_for. That the JSON text reads back is the lemma of C20. That the parser of the dependency reads the written string as the format says is the lemma lemma_parsed_reads_the_format over its contract, which is discharged on its registry source in the same run.',
    'C20': 'Proved on the code that serde_derive generates for SourceMapJson, Section and Position (macro expansion of the current source, serialize / visit_str / visit_map): what is written and what is read, member by member under the standard names, and by induction over the document that reading what was written gives the document. Assumed: the implementations of serde for i32, String, Option, Vec and Box, that serde_json streams the members of an object, and its nesting limit of 127.',
    'C19': 'Proved for all http and https URLs and references of the plain domain (contracts/urls.vrs, no bound on the number of segments): every function of the URL part of util.rs against a specification of resolution on segment lists, and over those contracts the two inverse laws and the fixed point. Assumed: what url::Url parses, joins and prints on that domain and what two regular expressions match; replayed against the crates.',
    'C21': 'Proved for every document, state and history (the flag is part of the state, and its invariant says the stored mappings have their spans): what each query and iteration reports as last column is exactly the start of the next mapping of the line, moved with the section; none or -1 at the end of a line. That the dependency computes and hands out exact spans is discharged on its registry source in the same run.',
    'C22': 'Proved for every consumer in every state: each accessor gives exactly the consumer inside (for a mutable one: the consumer afterwards is the old one with what was done through the reference), and the other kind panics or is None. consume: over the contract of new, the callback (any FnOnce, which cannot be called twice) is called with a consumer that new may build.',
    'C17': 'Proved: the calls of the callback are exactly the mappings, in generated order or sorted by source and original position, section by section and moved. The callback is read as the list of the values it is called with (it is Fn: it cannot touch the consumer).',
}
NOT_APPLICABLE = {}
