#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)

prop('C01', 'Base64-VLQ encoding is lossless for every 32-bit integer',
 'Every 32-bit signed integer encodes, without panicking, to the shortest string of Base64 digits that decodes back to exactly that integer (zero to "A") under the source-map VLQ rules (5-bit groups least significant first, continuation bit on every digit but the last, sign in the lowest bit). A single number maps to a Base64 digit exactly when it lies in 0..=63, following the standard alphabet A-Z a-z 0-9 + /, and to nothing otherwise.',
 ['inputs'], 'all 2^32 integers, for the VLQ encoder and for the single-digit encoder',
 'The tests encode 3 digits and some 150 integers between -255 and 255; the multi-digit, sign-boundary and near-overflow behaviour over the other four billion is never run.',
 ['src/base64.rs', 'src/base64_vlq.rs'],
 [('base64vlq_encode: sign folding and 5-bit digit loop', 'src/base64_vlq.rs'), ('to_vlq_signed', 'src/base64_vlq.rs'), ('encode: digit table', 'src/base64.rs')],
 observe=['base64_vlq::base64vlq_encode', 'base64::encode'])

prop('C02', 'The indexed string set keeps first-occurrence order and stable indices',
 'After any sequence of additions, each allowing duplicates or not, the listing is the added strings in order, a string already present being skipped exactly when its addition disallowed duplicates. A string is a member exactly when it occurs in the listing, its index is the position of its first occurrence, and looking up a position returns that listing entry, or nothing for a position outside the listing. The reported size is the number of distinct strings.',
 ['inputs', 'histories'], 'all strings and all sequences of additions, both one by one and from an array',
 'Eight doc tests each hold one or two strings; none adds a duplicate, none asks for an out-of-range position, and a guarantee about every history of additions needs induction over it.',
 ['src/array_set.rs'],
 [('ArraySet::add / from_array keep the vector and the index map in step', 'src/array_set.rs'), ('has, index_of, at, size, to_vec', 'src/array_set.rs')],
 state=[('array', 'the listing', 'src/array_set.rs'), ('set', 'string -> index of first occurrence', 'src/array_set.rs')],
 observe=['array_set::ArraySet public methods'])

prop('C03', 'A mapping list loses nothing and lists in generated order',
 'After any interleaving of additions and listings, a listing contains exactly the mappings added so far, each as often as it was added and with every field unchanged, in non-decreasing order of generated line and then generated column. Visiting them unsorted calls back with exactly the same mappings, each as often, with the number of the call counted from zero.',
 ['inputs', 'histories'], 'all finite interleavings of add and list over mappings with non-negative positions and with source and original position both present or both absent, in any insertion order, with repeats',
 'The one generator test inserts thirteen mappings already in order, so the out-of-order path and the sort are never executed; the order must hold for every history.',
 ['src/mapping_list.rs', 'src/util.rs'],
 [('MappingList::add: append and track whether still sorted', 'src/mapping_list.rs'), ('MappingList::unsorted_for_each', 'src/mapping_list.rs'), ('MappingList::to_array: lazy sort', 'src/mapping_list.rs'), ('generated_position_after', 'src/mapping_list.rs')],
 state=[('sorted', 'true only while the list is in generated order', 'src/mapping_list.rs'), ('last', 'the greatest mapping added in order', 'src/mapping_list.rs')],
 observe=['mapping_list::MappingList::{add,to_array,unsorted_for_each}'])

prop('C04', 'Nearest-element search finds the right element of any sorted sequence',
 'Searching a sorted sequence never panics and returns an element that compares equal to the needle whenever there is one. Otherwise it returns the greatest smaller element by default, or the least greater element when that bias is asked for, and "not found" exactly when no such element exists. When several elements are equal to the one found, it returns the position of the first of them.',
 ['inputs'], 'all sequences of fewer than 2^31 - 1 elements, sorted consistently with the two comparison functions, all needles, element types and comparison functions, both biases and the default',
 'Seven tests search one ten-element and one eight-element array; off-by-one and termination errors in the recursion show only at particular lengths, positions and duplicate runs.',
 ['src/binary_search.rs'],
 [('recursive_search: halving with exclusive bounds', 'src/binary_search.rs'), ('search: walk back to the first equal element', 'src/binary_search.rs')],
 observe=['binary_search::search'])

prop('C05', 'Mapping comparison is a total order on valid mappings',
 'For valid mappings the comparison by generated position is reflexive, antisymmetric and transitive, and orders by generated line, generated column, source, original line, original column and name, in that order, a missing source or name coming after a present one. It reports equality exactly when all of these fields are equal.',
 ['inputs'], 'all pairs and triples of valid mappings (lines >= 1, columns >= 0; source and original position both present or both absent); all pairs and triples of optional strings for the string comparison',
 'No test calls the comparison directly; ordering laws quantify over pairs and triples of arbitrary mappings.',
 ['src/util.rs'],
 [('compare_by_generated_pos_inflated', 'src/util.rs'), ('strcmp', 'src/util.rs')],
 observe=['util::compare_by_generated_pos_inflated', 'util::strcmp'])

prop('C06', 'Serialised mappings decode to exactly the mappings that were added',
 'Decoding the generated "mappings" string by the Source Map v3 rules (lines separated by ";", segments by ",", one, four or five VLQ fields relative to the previous ones) yields exactly the added mappings, in generated order and with consecutive duplicates merged: generated line and column, source, original line and column and name of each. Serialising never panics on valid mappings.',
 ['inputs', 'histories'], 'all sequences of valid mappings added in any order, any number of lines, sources and names, coordinates up to the 32-bit limit',
 'One test serialises thirteen in-order mappings on two lines and compares one string; skipped lines, duplicates, source-less mappings, backward deltas and unordered insertion are never exercised, and losslessness is a statement about every list.',
 ['src/generator.rs', 'src/base64_vlq.rs', 'src/mapping_list.rs', 'src/array_set.rs', 'src/util.rs'],
 [('SourceMapGenerator::serialize_mappings: relative fields', 'src/generator.rs'), ('SourceMapGenerator::add_mapping: registers source and name', 'src/generator.rs'), ('base64vlq_encode', 'src/base64_vlq.rs')],
 state=[('previous_* counters', 'the decoder state the next segment is relative to', 'src/generator.rs')],
 observe=['SourceMapGenerator::as_string, field "mappings"'])

prop('C07', 'The generated document has the right tables and aligned source contents',
 'The generated document carries version 3, the given file and source root, and every distinct source and every distinct name of the added mappings exactly once, in order of first use. If any source content is registered, it carries a contents list parallel to the sources, whose i-th entry is the content most recently registered for the i-th source (sources being compared relative to the source root) and null if none is registered or it was removed.',
 ['inputs', 'histories'], 'all sequences of adding mappings and setting, replacing and removing source contents, with or without a source root',
 'No test registers any source content, and one test adds sources; alignment and replacement depend on the history of calls.',
 ['src/generator.rs', 'src/array_set.rs', 'src/source_map.rs', 'src/util.rs'],
 [('SourceMapGenerator::set_source_content', 'src/generator.rs'), ('generate_sources_contents, as_json', 'src/generator.rs'), ('SourceMapJson', 'src/source_map.rs')],
 state=[('source_contents', 'content by source relative to the source root', 'src/generator.rs')],
 observe=['SourceMapGenerator::as_string'])

prop('C08', 'A generator accepts exactly the valid mappings',
 'Unless validation is switched off, adding a mapping succeeds exactly when its generated line is at least 1 and its generated column at least 0 and it either has no original position, source or name, or has a source and an original position with line at least 1 and column at least 0. Any other mapping is refused with a panic and leaves the generator as it was; with validation off no mapping is refused.',
 ['inputs', 'histories'], 'all mappings (all combinations of present and absent fields, all 32-bit coordinates) and all generator states',
 'All thirteen mappings in the tests are valid; nothing tests a refusal or the boundary values.',
 ['src/generator.rs'],
 [('SourceMapGenerator::validate_mapping', 'src/generator.rs'), ('SourceMapGenerator::add_mapping', 'src/generator.rs')],
 observe=['SourceMapGenerator::add_mapping'])

prop('C09', 'Looking up a generated position returns the closest mapping on its line',
 'In a consumer without sections, looking up a generated position (line >= 1, column >= 0; anything else is refused by panicking) considers only the mappings of that line and takes one at that exact column if there is one, otherwise the closest before it, or the closest after it when that bias is asked for. The result carries exactly that mapping\'s source URL, 1-based original line, original column, name (if it has one) and generated position; there is no result exactly when no such mapping exists on the line or it carries no original position.',
 ['inputs', 'histories'], 'all well-formed maps, all positions, both biases and the default, after any earlier queries',
 'No test ever performs a lookup; correctness quantifies over maps, positions and biases.',
 ['src/consumer.rs'],
 [('BasicConsumer::original_position_for', 'src/consumer.rs'), ('parse_mappings (lazy)', 'src/consumer.rs')],
 state=[('mappings', 'lazily parsed mappings', 'src/consumer.rs'), ('absolute_sources', 'resolved source URLs', 'src/consumer.rs')],
 observe=['BasicConsumer::original_position_for'])

prop('C10', 'Looking up an original position returns the closest mapping of its source',
 'In a consumer without sections, looking up a source and original position (line >= 1, column >= 0; anything else is refused by panicking) takes a mapping of that source at exactly that position if there is one, otherwise the closest before it in the source, or the closest after it when that bias is asked for. The result carries that mapping\'s 1-based generated line, its generated column, source URL, 1-based original line, original column and name (if it has one); there is no result exactly when the source is unknown or has no such mapping.',
 ['inputs', 'histories'], 'all well-formed maps, sources, positions and biases, after any earlier queries',
 'No test ever performs a lookup in this direction.',
 ['src/consumer.rs'],
 [('BasicConsumer::generated_position_for', 'src/consumer.rs'), ('find_source_index', 'src/consumer.rs')],
 observe=['BasicConsumer::generated_position_for'])

prop('C11', 'Asking for all generated positions returns the whole matching group',
 'In a consumer without sections, asking for all generated positions of a source and a 1-based original line returns, when a column is given, exactly the mappings on that line at that column or else at the next mapped column of that line; without a column, exactly the mappings on that line or else on the next mapped line of that source. The list is empty exactly when the source is unknown or there is no such group, and queries with line < 1 or column < 0 on a known source are refused by panicking.',
 ['inputs', 'histories'], 'all well-formed maps, sources, lines and optional columns, after any earlier queries',
 'No test calls this query.',
 ['src/consumer.rs'],
 [('BasicConsumer::all_generated_position_for', 'src/consumer.rs')],
 observe=['BasicConsumer::all_generated_position_for'])

prop('C12', 'A source name always resolves to the same, correct source',
 'A source name given to a query resolves to the first source of the map whose absolute URL equals the name resolved against the map\'s own URL, or failing that against the source root; if neither matches, the query behaves as for an unknown source. The answer does not depend on which names were looked up before, and the map\'s sources are listed in document order, one absolute URL per entry.',
 ['inputs', 'histories'], 'all maps, source roots, map URLs and names, and all sequences of earlier lookups',
 'Two tests list the sources of one fixture; none resolves a name, and cache transparency is about every history of lookups.',
 ['src/consumer.rs', 'src/array_set.rs'],
 [('BasicConsumer::find_source_index with its lookup cache', 'src/consumer.rs'), ('BasicConsumer::from_source_map_json / new: absolute_sources', 'src/consumer.rs'), ('get_sources', 'src/consumer.rs')],
 state=[('source_lookup_cache', 'name -> index, must agree with the uncached answer', 'src/consumer.rs')],
 observe=['BasicConsumer queries taking a source; get_sources'])

prop('C13', 'Source contents are returned for the right source',
 'Asking a consumer for the content of a known source returns the contents entry at that source\'s own position, or nothing when the map has none there. For an unknown source in a map with contents the query panics, or returns nothing when the caller asked for that; with sections, the first section (in order) holding content for the source answers, and the source counts as unknown when none does. The map reports that it has the contents of all sources exactly when its contents list is at least as long as its sources and has no null entry, in every section.',
 ['inputs', 'histories'], 'all maps with full, partial, short or absent contents, with and without sections, all names, both missing modes',
 'No test asks for any content.',
 ['src/consumer.rs', 'src/source_map.rs'],
 [('BasicConsumer::source_content_for / has_contents_of_all_sources', 'src/consumer.rs'), ('IndexedConsumer::source_content_for / has_contents_of_all_sources', 'src/consumer.rs')],
 observe=['source_content_for', 'has_contents_of_all_sources'])

prop('C14', 'A sectioned map is accepted exactly when well-formed, whatever the scheduling',
 'Building a consumer from a document gives a sectioned consumer exactly when the document has sections. It is refused (by panicking) exactly when the version is not 3, some section refers to a URL, or the section offsets are not in non-decreasing order; otherwise it keeps all sections, in document order, each with its own offset and map, and lists their sources in that order. The outcome does not depend on thread scheduling.',
 ['inputs', 'schedules'], 'all documents with any number of sections, offsets with non-negative lines and columns, and section maps that list their sources; all schedules of the worker threads used to build the sections',
 'One test builds one two-section fixture, once; an order check that depends on worker scheduling passes most runs.',
 ['src/consumer.rs'],
 [('IndexedConsumer::from_source_map_json: version, url and offset-order checks', 'src/consumer.rs'), ('create_consumer dispatch', 'src/consumer.rs'), ('IndexedConsumer::get_sources', 'src/consumer.rs')],
 state=[('sections', 'offset and consumer of each section, in order', 'src/consumer.rs')],
 observe=['create_consumer', 'IndexedConsumer::{new,from_source_map_json,get_sources}'])

prop('C15', 'Generated positions in a sectioned map are answered by the owning section',
 'Looking up a generated position in a sectioned map is answered by the last section whose offset is at or before that position, asked for the position relative to the offset (columns are relative only on the section\'s first line), and the generated position of the answer is moved back to whole-file coordinates. A position before the first section has no result, and no position with line >= 1 and column >= 0 makes the lookup panic on well-formed maps.',
 ['inputs'], 'all section lists with strictly increasing offsets, all positions (in particular exactly at, just before and just after an offset), all biases',
 'No test looks anything up in a sectioned map.',
 ['src/consumer.rs', 'src/binary_search.rs'],
 [('IndexedConsumer::original_position_for', 'src/consumer.rs'), ('binary_search::search', 'src/binary_search.rs')],
 observe=['IndexedConsumer::original_position_for'])

prop('C16', 'Original positions in a sectioned map are answered in whole-file coordinates',
 'Looking up one or all generated positions of an original position in a sectioned map is answered by the first section that knows the source, and every returned generated position is that section\'s own answer moved by the section offset: lines by the offset line, columns by the offset column only on the section\'s first line. There is no result exactly when no section knows the source or that section has no answer, and the lookup never panics for a valid position.',
 ['inputs', 'histories'], 'all well-formed sectioned maps, sources, positions and biases, with and without column spans computed',
 'No test looks anything up in a sectioned map.',
 ['src/consumer.rs'],
 [('IndexedConsumer::generated_position_for', 'src/consumer.rs'), ('IndexedConsumer::all_generated_position_for', 'src/consumer.rs')],
 observe=['IndexedConsumer::{generated_position_for,all_generated_position_for}'])

prop('C17', 'Iterating visits every mapping exactly once, in order and shifted by section',
 'Iterating a consumer without sections calls the callback exactly once per mapping in generated order, or exactly once per mapping with an original position in original order, and not at all if the mappings cannot be parsed. Iterating a sectioned consumer does this section by section, in order, with the generated position of every mapping moved by its section\'s offset (columns only on the section\'s first line), and never panics on well-formed maps.',
 ['inputs', 'histories'], 'all well-formed maps with and without sections, both orders',
 'No test iterates; the benchmark iterates one file in one order and ignores the mappings.',
 ['src/consumer.rs'],
 [('ConsumerTrait::each_mapping for BasicConsumer', 'src/consumer.rs'), ('ConsumerTrait::each_mapping for IndexedConsumer', 'src/consumer.rs')],
 observe=['ConsumerTrait::each_mapping'])

prop('C18', 'What a generator writes, a consumer reads back',
 'For a consumer built from a generator to which any valid mappings were added, looking up the generated position of an added mapping that has an original position, and shares its generated position with no different mapping, returns exactly its original line, original column and name, and its source (resolved against the source root).',
 ['inputs', 'histories'], 'all sequences of valid mappings added in any order, with or without a source root and file',
 'No test connects a generator to a consumer.',
 ['src/generator.rs', 'src/consumer.rs', 'src/base64_vlq.rs'],
 [('SourceMapGenerator::serialize_mappings / as_json', 'src/generator.rs'), ('BasicConsumer::from_source_map, original_position_for', 'src/consumer.rs')],
 observe=['BasicConsumer::from_source_map followed by original_position_for'])

prop('C19', 'Relative URLs and joined URLs are inverse to each other',
 'Take http and https URLs and relative references (absolute, scheme-relative, path-absolute, path-relative) whose path segments consist of letters, digits and -._~+,;=@&$!*() with no empty segment but the last, whose authority is a lower-case host with an optional user, password and non-default port. join(root, x) is x resolved as a browser would, against the root taken as a directory (an absolute x is returned as it is); compute_source_url(root, source, map) is the normalised source, without its leading slash if there is a root, joined to the root and then to the directory of the map. Normalising removes "." and ".." except the leading ".." of a path-relative reference, and keeps everything else; normalising twice is normalising once. For a root without query and fragment and a path-relative x that never climbs above its start, relative(root, join(root, x)) is the normalised x. For a root without query and a target of the same class and origin, join(root, relative(root, target)) is the normalised target, unless the target is the root or a directory above it written without a slash at the end, or (both path-relative) climbs less than the root. A target of another class or origin is returned normalised by relative. Query and fragment are those of the reference (an empty path without query inherits the query of the root). None of these calls panics, and classifying a string panics for no string.',
 ['inputs'], 'all roots, references and map URLs of that domain, with any number of segments',
 'The URL helpers are only run on "one.js" and "/the/root".',
 ['src/util.rs'],
 [('join, relative, compute_source_url, compute_relative_url, get_url_type', 'src/util.rs')],
 observe=['util::{join,relative,compute_source_url}'])

prop('C20', 'Source map documents survive a JSON round trip',
 'Writing any source map document as JSON and reading it back gives an equal document, with the standard field names (version, sources, names, mappings, file, sourceRoot, sourcesContent, sections; offset, map, url; line, column), absent optional fields omitted, and sections nested as deep as the JSON reader goes (41 levels). When reading, fields may come in any order, unknown fields are ignored, an optional field may be absent or null. A text that is not JSON, or lacks a required field or has one of another type, is reported by create_consumer as an error and never panics.',
 ['inputs'], 'all documents and all byte strings',
 'One test compares the JSON of one empty document.',
 ['src/source_map.rs', 'src/consumer.rs'],
 [('serde derives on SourceMapJson, Section, Position', 'src/source_map.rs')],
 observe=['SourceMapGenerator::as_string', 'create_consumer'])

prop('C21', 'Column spans end where the next mapping of the line starts',
 'Once column spans have been computed (compute_column_spans, or computed_column_spans on a consumer with sections; at any point of a history of queries, any number of times), every mapping that a query or an iteration hands out carries as last generated column the generated column of the mapping that follows it in generated order on the same generated line, and none (-1 in the answer of generated_position_for of a consumer without sections) if it is the last of its line. With sections, both columns are moved together, on the first line of the section only. Before that, a last column is either absent or the same one. Computing spans never panics on a map whose mappings parse.',
 ['inputs', 'histories'], 'all well-formed maps with and without sections, all queries and both iteration orders, after any earlier queries',
 'No test computes column spans.',
 ['src/consumer.rs'],
 [('BasicConsumer::compute_column_spans', 'src/consumer.rs'), ('IndexedConsumer::computed_column_spans', 'src/consumer.rs'), ('last_generated_column in every query and in each_mapping', 'src/consumer.rs')],
 state=[('computed_column_spans', 'whether the stored mappings have their spans', 'src/consumer.rs')],
 observe=['compute_column_spans followed by original_position_for, generated_position_for, all_generated_position_for, each_mapping'])
prop('C22', 'A consumer is of one kind, and consume hands over the consumer the text builds',
 'Whatever consumer create_consumer built: as_basic_consumer and as_indexed_consumer (and their mutable and optional forms) give that very consumer when it is of that kind - what is done through a mutable one (queries fill caches, spans are computed) is what every later access sees, and nothing else changes - and otherwise panic (the optional forms give None). Exactly one of the two kinds answers. ConsumerTrait::consume calls its callback exactly once, with a consumer of that text and that url in the state in which new builds it, and never calls it for a document with sections that is refused.',
 ['inputs', 'histories'], 'all consumers of both kinds in every state, all callbacks; for consume all documents in the domain of C12 (without sections) and C14 (with sections)',
 'One test uses one accessor on a fresh consumer of one fixture; none asks for the wrong kind, uses a mutable accessor in a history, or calls consume.',
 ['src/consumer.rs'],
 [('Consumer::as_*, Consumer::try_as_*', 'src/consumer.rs'), ('ConsumerTrait::consume of both consumers', 'src/consumer.rs')],
 state=[('Consumer', 'one of the two kinds, owning the consumer', 'src/consumer.rs')],
 observe=['Consumer::{as,try_as}_{basic,indexed}_consumer(_mut)', 'BasicConsumer::consume', 'IndexedConsumer::consume'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
