#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because JSON lines are hard to edit)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(quant.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=['resync/' + f for f in files],
                     mechanism=[dict(name=n, where='resync/' + w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where='resync/' + w) for n, m, w in state],
                     observe_at=observe)))

p('C01', 'Comparing two resource lists partitions their URIs exactly',
  '''Comparing a destination resource list with a source resource list returns four lists such that every URI of either
  list is in exactly one of them: same (in both, descriptions equal), updated (in both, descriptions not equal), deleted
  (destination only), created (source only), and in no list is there any other URI. The entries of same and deleted are the
  destination's own resource objects, those of updated and created the source's, and neither input list is changed.''',
  ['inputs'], 'all pairs of resource lists of any size and any URIs, including empty lists, one list compared with itself, and iteration that is in progress',
  'the tests compare a handful of lists of at most six entries; a merge that goes wrong at particular interleavings of the two key orders passes them',
  ['resource_list.py', 'resource.py'], [('merge of two sorted iterations', 'resource_list.py ResourceList.compare'), ('sorted iteration', 'resource_list.py SortedIterMixin.sorted_iter')],
  ['ResourceList.compare'])

p('C02', 'Resource equality means no proof of inequality',
  '''Two resource descriptions compare equal exactly when their URIs are the same, and either both have no timestamp or both
  have one and these differ by strictly less than the tolerance (one second for ==; the given delta for equal()), and for each
  of md5, sha1, sha256 and length the values are the same wherever both descriptions have one. A value that is present counts
  even when it is zero or empty, the outcome does not depend on which of the two is asked, and a resource is never equal to None.''',
  ['inputs'], 'all pairs of resources over all combinations of present and absent values, and all tolerances',
  'the tests try some twenty pairs; presence of six attributes on two sides gives 2^12 combinations before values are considered',
  ['resource.py'], [('equality with tolerance', 'resource.py Resource.equal, Resource.__eq__')], ['Resource.equal', 'Resource.__eq__'])

p('C03', 'Baseline sync and audit act only as the comparison and options allow',
  '''An audit, and a baseline sync that is refused (no or unsafe mapping, empty source list, or, unless authority checking
  is disabled, any listed URI outside the authority of the source list), changes nothing: no download, deletion or recorded state.
  Otherwise a baseline sync downloads every created and updated resource once, from its URI to the path its mapping gives,
  removes local copies of deleted resources if and only if deletion is allowed, touches nothing else, and records as client state,
  only if positive and not in a dry run, the latest timestamp of the resources downloaded; in a dry run nothing at all is changed.''',
  ['inputs', 'configurations'], 'all source and destination lists, mappings, and combinations of deletion, dry run, noauth and strictauth options',
  'tests run a few dry runs over three local files; no test looks at authority before effects, or at deletion gating over lists of arbitrary content',
  ['client.py'], [('baseline/audit driver', 'client.py Client.baseline_or_audit'), ('local disk actions', 'client.py Client.update_resource, Client.delete_resource')],
  ['Client.baseline_or_audit', 'files written and removed', 'client state file'])

p('C04', 'Incremental sync applies exactly the pending changes',
  '''An incremental sync applies, in change list order, exactly the last change of each resource that is at or after the starting
  time (leaving out resources created and deleted again within that period): created and updated ones are downloaded to the mapped
  path, deleted ones removed if and only if deletion is allowed. Nothing is applied or recorded if the mapping is missing or unsafe,
  no starting time is known, an entry has no time or unknown change type, or, unless disabled, any entry is outside the
  authority of the change list (or of the sitemap when the default change list is used). After applying, the latest time in the change list is
  recorded as state, and in a dry run nothing is changed or recorded.''',
  ['inputs', 'histories', 'configurations'], 'all change lists (any order, duplicates and change types), starting times and options',
  'the tests apply hand-written change lists of a few entries; nothing exercises arbitrary histories of changes to the same URI, or authority of an explicit change list',
  ['client.py', 'change_list.py', 'resource_container.py'], [('incremental driver', 'client.py Client.incremental')],
  ['Client.incremental', 'files written and removed', 'client state file'])

p('C05', 'Applying one change touches one file and reports what happened',
  '''Updating one resource makes at most the configured number of attempts to fetch its URI, retrying only after a timeout; it
  returns 1 exactly if the content fetched was written to the given file, whose modification time is then set to the whole seconds of
  the resource timestamp when there is one. A failure raises a fatal client error, or, when failures are to be ignored, returns 0 without
  setting any time; deleting one resource removes only the given file, only if deletion is allowed and it is no dry run, returns 1 exactly if it was removed,
  and never raises because removal failed. In a dry run neither touches the disk, and the latest timestamp seen only ever grows, to that of the resource.''',
  ['inputs', 'fault_sequences'], 'all resources, all retry limits, and all sequences of timeouts and errors from the network and the file system',
  'the tests try one timeout sequence and one missing file; which sequences of faults leave a wrong count, time or file is not settled by them',
  ['client.py'], [('download with retries', 'client.py Client.update_resource'), ('guarded delete', 'client.py Client.delete_resource')],
  ['Client.update_resource', 'Client.delete_resource'])

p('C06', 'Pruning a change list keeps exactly the right changes in order',
  '''Pruning by time keeps exactly the entries whose change time (last modification time for specification 1.0) is at or after the given time, in their
  original order, and raises an error, changing nothing, if an entry has no such time. Pruning duplicates keeps for each URI only its last entry,
  in the original order, and drops a URI altogether if its last entry is a delete and its first, among several, a create. Both return the number of entries removed.''',
  ['inputs', 'histories'], 'all lists of changes of any length, with any repetition of URIs, change types and times',
  'the tests prune lists of up to ten chosen entries; the property speaks of every order and multiplicity',
  ['change_list.py', 'resource_container.py'], [('prune by time', 'change_list.py ChangeList.prune_updates_before'), ('prune duplicates', 'resource_container.py ResourceContainer.prune_dupes')],
  ['ChangeList.prune_updates_before', 'ResourceContainer.prune_dupes'])

p('C07', 'A change list admits only valid changes and keeps their order',
  '''A change list accepts only entries that have a change type, rejecting others with a change type error and keeping all entries in the order added,
  repeated URIs included. Adding resources with a given change type adds for each, in order, a new description that has all data of
  the original (URI, times, length, digests, type, path, links, capability and period timestamps) and that change type, and leaves the original unchanged. No resource description can be given a change type
  other than created, updated or deleted while that check is enabled.''',
  ['inputs'], 'all sequences of additions of resources with any combination of data',
  'tests add two or three resources and look at a few attributes; loss of an attribute for some combination goes unnoticed',
  ['change_list.py', 'resource.py'], [('admission', 'change_list.py ChangeList.add, add_if_changed, add_changed_resources'), ('change type check', 'resource.py Resource.__setattr__, Resource.__init__')],
  ['ChangeList.add', 'ChangeList.add_changed_resources', 'Resource()'])

p('C08', 'URI-keyed collections: one resource per URI, canonical iteration order',
  '''Resource lists, source descriptions and capability lists hold at most one resource per URI: adding another with the same URI raises an error and changes nothing, unless replacement
  is asked for, in which case the new one takes its place. Iteration gives each resource exactly once, in order of URI (in order of addition for the ordered
  variant; in specified capability order, unknown capabilities last in alphabetical order, then URI order for capability lists), and any number of iterations may be in progress at once without influencing each other.''',
  ['inputs', 'histories'], 'all sequences of additions and replacements and all interleavings of iterations over a collection',
  'tests add up to four resources and run one iteration at a time',
  ['resource_list.py', 'resource_set.py', 'capability_list.py', 'source_description.py'], [('add', 'resource_list.py ResourceListDict.add, ResourceListOrdered.add, resource_set.py ResourceSet.add'), ('iteration', 'resource_list.py sorted_iter, resource_set.py ResourceSet.__iter__, capability_list.py CapabilitySet.__iter__')],
  ['ResourceList.add', 'iteration of ResourceList, SourceDescription, CapabilityList'])

p('C09', 'URI/path mapping is literal, contained and invertible',
  '''A mapping translates a source URI to a local path if and only if the URI is the mapping's base URI itself or continues it at a slash (and has no .. segment), in which case the path is
  the base path followed by that same remainder (a slash if none); translation from path to URI is the same with the roles exchanged, so that each undoes the other. Of several mappings the first
  that applies is used, and an error is raised if none does. Base URIs and paths are compared literally, without trailing slashes, and defining the same base URI or base path twice is refused.''',
  ['inputs', 'configurations'], 'all base URIs and paths (whatever characters they have), all URIs and paths translated, and all lists of mappings',
  'tests map a dozen friendly strings; characters special to patterns, line ends, .. segments and near-miss prefixes are what breaks containment',
  ['mapper.py'], [('one mapping', 'mapper.py Map.src_to_dst, Map.dst_to_src, Map.strip_trailing_slashes'), ('list of mappings', 'mapper.py Mapper.parse, Mapper.src_to_dst, Mapper.dst_to_src')],
  ['Mapper.src_to_dst', 'Mapper.dst_to_src', 'Mapper()'])

p('C10', 'URL authority is same scheme, same or sub-domain server, and path',
  '''A document URL has authority over a URL exactly if the scheme is the same and the server is the same or a sub-domain of the document's server (compared by whole labels) and, in strict mode, the
  directory of the URL's path is the directory of the document's path or one below it (compared by whole path segments). A checker with no document URL has no authority over any web URL.''',
  ['inputs'], 'all pairs of URLs and both modes',
  'tests try about forty URLs, none with a server or path that extends the master as a mere string',
  ['url_authority.py'], [('authority decision', 'url_authority.py UrlAuthority.set_master, has_authority_over')], ['UrlAuthority.has_authority_over'])

p('C11', 'W3C datetimes are parsed strictly and survive a round trip',
  '''Parsing accepts exactly the W3C Datetime forms (year, month and date forms; date and time with minutes, seconds or fraction and a time zone Z or +/-hh:mm with hh up to 23 and mm up to 59)
  that denote an existing date and time, returns the UTC timestamp with date-only forms meaning the start of the period, and raises ValueError for every other string including the empty one; None gives None.
  Formatting a timestamp and parsing the result gives the same timestamp to within one microsecond, and the formatted string is always in Z form.''',
  ['inputs'], 'all strings, and all timestamps from year 1970 to 9999',
  'tests try about fifty strings; the set of accepted strings and the value of every one is a statement about an infinite language',
  ['w3c_datetime.py'], [('parser', 'w3c_datetime.py str_to_datetime'), ('formatter', 'w3c_datetime.py datetime_to_str')], ['str_to_datetime', 'datetime_to_str'])

p('C12', 'Writing a resource to sitemap XML and reading it back loses nothing',
  '''For every resource description, the element written for it and read back gives a description with the same URI, last modification time, change type and change time, length, MIME type, digests, path, capability,
  at/completed/from/until times and links (relation, target, and length, hash, path, modified, priority and type of each); data that is absent stays absent. Writing
  has no effect on the resource, the order of links is kept, and values of zero are not taken for absent ones.''',
  ['inputs'], 'all resources over all combinations of present and absent attributes and any number of links (specification version 1.1)',
  'tests round-trip a few fixed documents; a dropped attribute, or one read under another name, for some combination is not seen',
  ['sitemap.py', 'resource.py'], [('writer', 'sitemap.py Sitemap.resource_etree_element, add_element_with_atts_to_etree'), ('reader', 'sitemap.py Sitemap.resource_from_etree, md_from_etree, ln_from_etree')],
  ['Sitemap.resource_as_xml', 'Sitemap.parse_xml', 'ResourceList.as_xml', 'ResourceList.parse'])

p('C13', 'Documents that are not what is expected are rejected',
  '''Parsing accepts a document only if its root is a sitemap or sitemapindex, of the kind asked for if one is asked for, with at most one top-level metadata element and with no top-level metadata or link after the first entry; if a capability is expected, only
  a document that states exactly that capability (or, for a resource list, states none). Each entry must have exactly one location, not empty, at most one last modification time and one metadata element, a known change type, and whole numbers as lengths; each link must have a target and a relation, and any priority must be in 1 to 999999.
  Otherwise a sitemap error is raised; when accepted, the entries are added one for each entry element, in document order.''',
  ['inputs'], 'all XML documents and all combinations of expectations',
  'tests try some two dozen malformed documents; acceptance is a statement about every sequence of elements',
  ['sitemap.py'], [('document parser', 'sitemap.py Sitemap.parse_xml'), ('entry parsers', 'sitemap.py Sitemap.resource_from_etree, md_from_etree, ln_from_etree')], ['Sitemap.parse_xml', 'ListBase.parse'])

p('C14', 'Splitting a large list loses, repeats and reorders nothing',
  '''A list with more entries than the configured maximum is written as component documents, each but the last holding exactly the maximum number of entries, whose concatenation in order is the original list; the index
  lists exactly these components by the URIs their file names map to, in order, with distinct names, and each component links to the index. A list with no more entries than the maximum is written as one document, multiple
  files are never written when disabled, and rendering a single part gives exactly the entries of that part or raises an error if there is no such part.''',
  ['inputs', 'configurations'], 'all list lengths and all maxima of at least 1 (or none), and part numbers from 0',
  'tests split lists of two or three entries; boundaries (multiples, maximum 1, one more than the maximum) are what goes wrong',
  ['list_base_with_index.py'], [('chunking', 'list_base_with_index.py get_resources_chunk, write'), ('parts', 'list_base_with_index.py requires_multifile, as_xml, as_xml_index, as_xml_part, part_name')],
  ['ListBaseWithIndex.write', 'as_xml', 'as_xml_index', 'as_xml_part'])

p('C15', 'Reading an index gathers every listed document',
  '''Reading a list from an index document adds the entries of every component document listed, and nothing else, reading each from its own URI, or for a local index from the local file its URI maps to; the index
  entries themselves never count as resources. Reading fails with an error if indexes are disabled, if any component cannot be read or is itself an index, or, when authority checking is enabled for a remote index, if a component lies outside the authority of the index.''',
  ['inputs', 'configurations', 'fault_sequences'], 'all index documents with any number of components, local or remote, and failures to read any of them',
  'tests read one index of three local files; failures and https, mapped or foreign component URIs are not reached',
  ['list_base_with_index.py'], [('index reader', 'list_base_with_index.py read, read_component_sitemap, is_file_uri')], ['ListBaseWithIndex.read'])

p('C16', 'Digests are those of the whole file, and hash strings are read exactly',
  '''For each digest type asked for, and no other, the digest reported for a file is the hexadecimal digest of that algorithm over the complete content of the file, whatever its size, and asking for a type that is not supported is refused. The hash string of a resource
  lists exactly the digests it has in the order md5, sha-1, sha-256, and setting it from a string sets each digest named to the value after the first colon, clears those not named, uses the first of repeated types, and reports repeated or unsupported types as an error after taking over all others.''',
  ['inputs'], 'all file contents of any size, all read block sizes, all sets of digest types and all hash strings',
  'tests hash one small file and set a few strings; content longer than one read block is never hashed',
  ['hashes.py', 'resource.py'], [('file digests', 'hashes.py Hashes.__init__, initialize_hashes, compute_for_file, set'), ('hash string', 'resource.py Resource.hash')], ['Hashes', 'Resource.hash'])

p('C17', 'A dump packs every resource once, within limits, at contained paths',
  '''The packages of a dump hold together exactly the resources given, each once and in order; a package is closed as soon as its size or number of files has reached the limit, never before, and none is empty. Before packing, a missing path, a recorded length that
  differs from the file, or a file above the size limit is an error, and missing lengths are filled in from the files. Inside a package every file has its own name, its path with the directory common to all removed, the content of its file, and is listed in the manifest under that name; for
  paths without .. the names never lead outside the package.''',
  ['inputs', 'configurations'], 'all sequences of resources with any file sizes and paths, and all limits',
  'tests pack two files; limits are reached in one test',
  ['dump.py'], [('partition', 'dump.py Dump.partition_dumps'), ('checks and prefix', 'dump.py Dump.check_files, archive_path'), ('package', 'dump.py Dump.write, write_zip')], ['Dump.write', 'Dump.partition_dumps', 'ZIP files written'])

p('C18', 'Client state is remembered per site',
  '''After a timestamp is recorded for a site, reading the state of that site, also by another client process, gives that timestamp; recording none removes it, and a site for which nothing is recorded, or with no state file at all, gives none. Recording or removing the state of one site leaves that of every
  other site, whose name does not differ just in punctuation or letter case, as it was.''',
  ['histories', 'inputs'], 'all sequences of recording, removing and reading for any site names and timestamps',
  'tests record two sites once each',
  ['client_state.py'], [('state file', 'client_state.py ClientState.set_state, get_state, config_site_to_name')], ['ClientState.set_state', 'ClientState.get_state'])

p('C19', 'A disk scan lists exactly the files to be listed, with true data',
  '''Building a resource list from disk lists exactly the files below the given paths (or the mapped ones) whose name, and the name of every directory entered below the start, matches no exclude pattern, and which are no symbolic links (unless included); every entry has the URI its path maps
  to, and its modification time, and, as asked for, its size, digests and path are those of the file. A file that cannot be examined is left out without affecting the others.''',
  ['inputs', 'configurations', 'fault_sequences'], 'all directory trees, sets of exclude patterns and options',
  'tests scan one directory of three files',
  ['resource_list_builder.py'], [('scan', 'resource_list_builder.py from_disk, from_disk_add_path, add_file, _exclude')], ['ResourceListBuilder.from_disk', 'ResourceListBuilder.add_file'])

p('C20', 'Links: first match is read, setting replaces or appends just one',
  '''Looking up a link relation gives the first link with that relation, or none. Setting a link for a relation changes that first link in place, or appends exactly one new link if there is none or duplicates are asked for; afterwards it has the target and attributes given and keeps its other attributes, and
  all other links are unchanged and in the same order. The shortcuts for up, index, describedby and contents read and set the link of that relation.''',
  ['inputs', 'histories'], 'all lists of links of any length, any relations, and all sequences of settings, on resources and on documents',
  'tests set a few links on empty lists',
  ['resource.py', 'resource_container.py'], [('resource links', 'resource.py Resource.link, link_href, link_set, link_add'), ('document links', 'resource_container.py ResourceContainer.link, link_href, link_set')], ['Resource.link_set', 'ResourceContainer.link_set'])

p('C21', 'Finding the resource list tries the specified places in order',
  '''The resource list is looked for in a fixed order: the explicit sitemap only, if given; else through the explicit capability list only, if given; else through the well-known description below the source base and then at its host; else resourcelist.xml and sitemap.xml beside the source and sitemap.xml
  at its host. The first that can be read is used, a later place is tried only because all earlier ones could not be read, a description or capability list that is found but is ambiguous, empty or has no resource list is a fatal error, and URIs given relatively are resolved against the document
  that contains them.''',
  ['inputs', 'fault_sequences', 'configurations'], 'all combinations of available, unreadable and unsuitable documents and of explicit settings',
  'tests cover a few local files',
  ['client.py', 'capability_list.py'], [('discovery', 'client.py find_resource_list, find_resource_list_from_source_description, find_resource_list_from_capability_list, sitemap_uri')], ['Client.find_resource_list'])

p('C22', 'Every request is made with the configured headers, delay and timeout',
  '''Opening a URI that has a scheme requests exactly that URI, and anything else the local file of that name; exactly one request is made, with the method asked for, with the library's user agent, with the access token as bearer authorization if and only if one is configured, and with the timeout if and only if one is given.
  The configured delay is waited exactly once before each web request other than the first request of the process, and never before opening a local file.''',
  ['inputs', 'histories', 'configurations'], 'all URIs, configurations and sequences of requests',
  'tests make two local requests',
  ['url_or_file_open.py'], [('open', 'url_or_file_open.py url_or_file_open')], ['url_or_file_open'])

p('C23', 'Command line link and capability options are read exactly',
  '''A link option is accepted exactly if it has a relation, a target that is not empty, and otherwise only terms with a name, a single equals sign and a value, both not empty; it then gives exactly these attributes, the last of repeated names counting, and every other option raises a fatal client error. A list of
  link options gives one link for each, in order, and a capability option gives exactly the names and URIs it states or raises a fatal client error.''',
  ['inputs'], 'all option strings and lists of options',
  'tests try some ten strings',
  ['client_utils.py'], [('option parsers', 'client_utils.py parse_link, parse_links, parse_capabilities')], ['parse_link', 'parse_links', 'parse_capabilities'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
