"""Writes /verif/properties.jsonl (run by hand after editing the list below)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    anchors = {'files': ['metaknowledge/' + f for f in files],
               'mechanism': [{'name': n, 'where': 'metaknowledge/' + w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': 'metaknowledge/' + w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    anchors['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': anchors})

MC, RC, MR, CI, GH = 'mkCollection.py', 'recordCollection.py', 'mkRecord.py', 'citation.py', 'graphHelpers.py'
I, H = ['inputs'], ['inputs', 'histories']

# ---------------------------------------------------------------- collections
p('S01', 'Set operators on collections are mathematically exact',
  'Union, intersection, difference and symmetric difference of two collections of the same kind contain exactly the items the mathematical operation gives, both in the form that makes a new collection and in the form that updates the left one. The new-collection forms change neither operand and share no storage with them, and the updating forms change only the left operand. If an operand is marked bad the result is marked bad and carries the recorded errors of both operands (the right operand\'s entry winning when both recorded one under the same key).',
  H, 'all pairs of collections, including empty, overlapping, equal and self-paired ones, and any operation sequence before',
  'the tests compare a few sizes on one sample file; the laws quantify over all pairs of sets and over the errors they carry',
  [MC], [('Collection operators', MC + ':Collection.__or__/__and__/__sub__/__xor__/__ior__/__iand__/__isub__/__ixor__')],
  ['the items, bad flag and errors of operands and result'])
p('S02', 'Adding, removing and comparing members behaves like a guarded set',
  'Adding an item of an allowed type makes it a member and leaves all others as they were, and adding anything else raises and changes nothing; discarding, removing and popping take away at most the one item concerned, and removing a missing item or popping from an empty collection raises a key error and changes nothing. Membership, length and iteration always describe the same set of items. A copy equals the original and the two never affect each other, and two collections of the same kind are equal exactly when they have the same items, in which case they hash alike.',
  H, 'all collections, all items and all sequences of these operations',
  'tests run a handful of single operations on one file; the claim is an invariant over every operation history',
  [MC], [('mutators and queries', MC + ':Collection.add/discard/remove/pop/clear/copy/__eq__/__hash__/__len__/__contains__/__iter__/peek')],
  state=[('_collection', 'the set of items', MC + ':Collection.__init__')])
p('S03', 'Chunking a collection partitions it',
  'Cutting a collection into chunks of at most n items, for any n of at least one, gives pairwise disjoint pieces whose union is the original, none larger than n and none empty, with every piece except the last exactly n items big. The plain form leaves the collection as it was and the destructive form leaves it empty.',
  I, 'all collections and all piece sizes n >= 1',
  'tests check the number of chunks for one size on one file',
  [MC], [('chunk', MC + ':Collection.chunk'), ('split', MC + ':Collection.split')])
p('S04', 'Looking up and removing by ID hits exactly the matching item',
  'Asking whether a collection contains an ID is true exactly when some member has it, and fetching by ID gives a member with that ID or nothing if there is none. Removing or discarding by ID takes away one member with that ID and no other, and if there is none removal raises a key error, discarding does nothing, and the collection is unchanged in both cases.',
  I, 'all collections and all ID strings, present or not',
  'tests use one present and one absent ID',
  [MC], [('ID functions', MC + ':CollectionWithIDs.containsID/getID/removeID/discardID')])
p('S05', 'Filters keep exactly the items that meet the condition',
  'Taking the bad entries gives exactly the items marked bad and changes nothing, and dropping them leaves exactly the others and clears the error marks. Splitting by year keeps exactly the records whose year lies within the two bounds, both included, leaving out records without a year, and dropping non-journals keeps exactly the records of the wanted publication type (or exactly the others when inverted). The set of tags reported for a collection is the union of the tags of its items.',
  I, 'all collections of records with any mix of good and bad entries, years, missing years, publication types and bounds',
  'tests compare one resulting size on one file; off-by-one bounds or a lost record need inputs at the boundary',
  [MC, RC], [('badEntries/dropBadEntries/tags', MC + ':CollectionWithIDs'), ('yearSplit', RC + ':RecordCollection.yearSplit'), ('dropNonJournals', RC + ':RecordCollection.dropNonJournals')])
# ---------------------------------------------------------------- records
p('R01', 'A record is a coherent mapping under raw tags and long names',
  'For every record and every string, the string is in the record exactly when indexing by it succeeds, and get returns that same value, or the given default when it is missing. A tag and its long name always give the same value, and no answer depends on which fields were looked up before or in which order. Iterating over a record yields exactly the raw tags of its source data, in their order, and its length is their number.',
  H, 'all records of the four formats with any set of well-formed fields, all keys, and all orders of lookups',
  'tests read each key once from fixed records; the cached lookups make the answer depend on history, which they never vary',
  [MR, 'WOS/recordWOS.py', 'medline/recordMedline.py', 'scopus/recordScopus.py', 'proquest/recordProQuest.py'],
  [('mapping protocol and memo', MR + ':ExtendedRecord.__contains__/__getitem__/get/values/items'), ('raw mapping', MR + ':Record.__iter__/__len__')],
  state=[('_computedFields', 'memo of processed values', MR + ':ExtendedRecord.__init__')])
p('R02', 'Record identity: equality, hashing, copying and pickling',
  'Two good records of the same kind are equal exactly when their ID strings are equal, equal records hash alike, and a record never equals something that is not a record. A copy or a pickled and restored record has the same ID, fields and values and equals the original. Afterwards, adding, replacing or removing fields of either one does not show in the other.',
  H, 'all pairs of records, with equal and different IDs, read or unread before copying',
  'tests compare a record with one copy of itself',
  [MR], [('identity', MR + ':Record.__hash__/__eq__/copy/__getstate__/__setstate__, ExtendedRecord.__getstate__')])
p('R03', 'Tags and long names are inverse, unambiguous translations',
  'Every Web of Science and every Medline tag has one long name and every long name one tag, and translating there and back returns the start. Normalising any known tag or long name to a tag or to a name gives its tag or its name, regardless of letter case when normalising to a tag, and unknown strings are rejected with a key error.',
  I, 'every tag and long name in the tables, and all unknown strings',
  'tests translate a couple of tags; a duplicated or misspelt table entry shows only for its own tag',
  ['WOS/tagProcessing/funcDicts.py', 'WOS/tagProcessing/helpFuncs.py', 'medline/tagProcessing/tagNames.py'],
  [('tables and normalisers', 'WOS/tagProcessing/funcDicts.py'), ('makeBiDirectional/reverseDict', 'WOS/tagProcessing/helpFuncs.py'), ('medline names', 'medline/tagProcessing/tagNames.py')])
p('R04', "A record's own citation carries its author, year, source, volume, page and DOI",
  'The citation made from a record consists of its first short author name without commas, its year, its abbreviated journal (or its title if there is none), its volume marked V, its first page marked P and its DOI marked DOI, in this order, separated by a comma and a space, skipping what the record lacks (for a Scopus record: first short author name, comma, title without parentheses, year in parentheses, journal, volume and page, in the form of Scopus citations). The variant with several citations makes one per short author, in order, each with that author in front, and a single citation without an author if there are none. Making a citation does not change the record.',
  I, 'all Web of Science and Medline style records with any subset of these fields and any number of authors',
  'tests look at the citation of a few records from one file',
  [MR], [('createCitation', MR + ':ExtendedRecord.createCitation')])
p('R05', 'Processed field values hold the text of the raw lines',
  'The processed value of each Web of Science field is a fixed function of its raw lines that loses no text: names and cited references give one entry per line, titles and other running texts the lines joined by a space (abstracts by a line break), lists of keywords, subjects and addresses their parts at the separator, numbers and years the number, and single-line fields their line. The month is the number of the first month (or of the first month of the season) named. Keywords and sources are in upper case and author keywords in lower case.',
  I, 'every tag with a processing function and all raw lines of the form that field has',
  'tests look at the values of a few fields of a few records from one file',
  ['WOS/tagProcessing/tagFunctions.py'], [('tag functions', 'WOS/tagProcessing/tagFunctions.py'), ('ISIdata/getMonth', 'WOS/tagProcessing/helpFuncs.py')])
# ---------------------------------------------------------------- citations
p('C01', 'Web of Science citation strings are parsed completely and never fail',
  'Any string can be turned into a citation without an exception, and the citation keeps the original text. For text of the form author, year, journal, volume, page, DOI, separated by a comma and a space, with an author or a year and any of the parts after the journal left out, the parts given come back in the matching attributes (the author without dots and in title case, the year as a number, the others in upper case), the parts left out are empty and text after them that fits no part is kept as miscellaneous. The citation is marked bad exactly when the author, the year or the journal is missing or such text remains.',
  I, 'all strings for totality; all combinations of present and absent parts for the parse',
  'tests parse ten fixed strings; the pattern is a regular expression with many optional parts and the claim is about all strings',
  [CI], [('constructor and pattern', CI + ':Citation.__init__/wosCiteRegex')])
p('C02', 'Citations are equal exactly when author, year and journal agree',
  'Two citations are equal exactly when their identifying strings (author, year and journal) are equal, whatever their volume, page or DOI, and equal citations hash alike, so they are the same member of a set and the same key of a dictionary. Equality is reflexive, symmetric and transitive, and a citation never equals a value of another type. The identifying string of a complete citation is its author, year and journal joined by a comma and a space, and a citation is anonymous exactly when its author is the anonymous marker or it has no author attribute at all.',
  I, 'all pairs and triples of citations from either source format and all other values',
  'tests compare a few fixed citations; identity is relational and quantifies over pairs',
  [CI], [('identity', CI + ':Citation.__eq__/__hash__/ID/isAnonymous')])
p('C03', 'Scopus citation strings come back as their parts',
  'Any string can be turned into a Scopus citation without an exception. For text of the form first author, further authors, title, year in parentheses, journal, volume and issue, pages, the given parts come back in the matching attributes in upper case and the year as a number, and the citation is good exactly when author, year and journal were found. Text that does not have this form gives a citation marked bad, whose identifying string is the text itself.',
  I, 'all strings for totality; all combinations of optional parts for the parse',
  'tests only check the number of citations in one sample file',
  [CI], [('constructor, scopus mode', CI + ':Citation.__init__/scopusCiteRegex')])
p('C04', 'Journal classification splits citations cleanly in two',
  'Given a table of journal abbreviations, a citation counts as a journal exactly when its journal is in the table with a non-empty name, and its full name is then that name. Filtering citations for journals and the inverted filter together return every citation exactly once, in the original order, and the second never returns one the first does.',
  I, 'all tables and all lists of citations, including citations without a journal and excluded journals',
  'needs the downloaded database, so no stable test reaches it',
  [CI], [('isJournal/FullJournalName', CI + ':Citation'), ('filterNonJournals', CI + ':filterNonJournals')])
# ---------------------------------------------------------------- parsing
p('P01', 'Reading a Web of Science file keeps every record and every field line',
  'A well-formed Web of Science file of any number of records with different accession numbers is read into exactly those records, without an error. Each record has exactly the tags of its lines, in order, and each tag exactly the texts of its line and of the continuation lines below it, unchanged.',
  I, 'all well-formed files: any tags, any number of lines per tag, any line text',
  'tests read two sample files and check counts and a few fields',
  ['WOS/wosHandlers.py', 'WOS/recordWOS.py'], [('wosParser', 'WOS/wosHandlers.py:wosParser'), ('recordParser', 'WOS/recordWOS.py:recordParser')])
p('P02', 'Writing Web of Science records and reading them back loses nothing',
  'Writing any collection of good Web of Science records to a file and reading that file gives an equal collection, without errors, in which each record has the same tags and the same raw lines for each tag, in the same order. The bytes of a record, the text it writes into a file and its parsed fields describe the same data.',
  I, 'all collections of good records with arbitrary single-line field texts',
  'tests compare one file with its rewritten version',
  ['WOS/recordWOS.py', 'WOS/wosHandlers.py', RC, MR], [('writeRecord', 'WOS/recordWOS.py:WOSRecord.writeRecord'), ('writeFile', RC + ':RecordCollection.writeFile'), ('__bytes__', MR + ':Record.__bytes__')])
p('P03', 'Damaged Web of Science input is reported, never silently lost',
  'If a Web of Science file is cut off at any point after its header line, reading it does not raise, returns all records that were complete (including the line break of their end line) before the cut, and reports an error or marks an entry bad unless only trailing blank text was lost. A record with a line too short, a repeated tag, or a continuation before its first tag becomes a bad entry that keeps the reason, or is reported as an error of the file, and the well-formed records in front of it are unaffected.',
  ['inputs', 'crash_points'], 'every truncation point of any well-formed file and every single-record corruption of the listed kinds',
  'tests feed four fixed broken files; truncation quantifies over every position',
  ['WOS/wosHandlers.py', 'WOS/recordWOS.py'], [('wosParser', 'WOS/wosHandlers.py:wosParser'), ('recordParser', 'WOS/recordWOS.py:recordParser'), ('WOSRecord', 'WOS/recordWOS.py:WOSRecord.__init__')])
p('P04', 'Medline files are read completely, survive rewriting and report damage',
  'A well-formed Medline file is read into exactly its records, each with exactly its tags and, for each tag, the texts of its lines in order with continuation lines joined by line breaks, author-specific fields being labelled with the author (named once in the record) they follow. Writing such records to a file and reading it back gives the same records and fields. A line that is neither a tag, a continuation nor blank makes the entry bad or is reported as an error, and the complete records before it are unaffected.',
  I, 'all well-formed files with any tags, repetitions and continuation lines, and single-line corruptions of them',
  'tests read one file and compare counts and sizes',
  ['medline/recordMedline.py', 'medline/medlineHandlers.py', RC], [('medlineRecordParser/writeRecord', 'medline/recordMedline.py'), ('medlineParser', 'medline/medlineHandlers.py:medlineParser')])
p('P05', 'Scopus rows are split exactly, whatever commas and quotes they contain',
  'Each row of a Scopus file is read into a record holding, for every non-empty column, exactly the text between its quotes (or of the column, if it has none), even when it contains commas, doubled quotes or starts with special characters, and whatever order the header gives the columns. Writing Scopus records to a file and reading it back gives the same records with the same texts for the non-empty columns. A row with too few columns becomes a bad entry instead of being dropped.',
  I, 'all rows whose columns are arbitrary one-line texts, quoted in the usual csv manner',
  'tests read one sample file; wrong splits depend on the position of quotes and commas',
  ['scopus/recordScopus.py', 'scopus/scopusHandlers.py'], [('scopusRecordParser/writeRecord', 'scopus/recordScopus.py'), ('scopusParser', 'scopus/scopusHandlers.py:scopusParser')])
p('P06', 'ProQuest reports are read completely and damage is reported',
  'A well-formed ProQuest report is read into exactly the records it lists, without an error, each with its title, author and every other labelled field, multi-line fields keeping their lines (without trailing blanks) in order. If the report is cut off or the numbered titles at its beginning do not match the records, reading does not raise, keeps the records before the problem and reports an error.',
  ['inputs', 'crash_points'], 'all well-formed reports with any number of records and fields, and their truncations',
  'tests read one sample report',
  ['proquest/recordProQuest.py', 'proquest/proQuestHandlers.py'], [('proQuestParser', 'proquest/proQuestHandlers.py'), ('proQuestRecordParser', 'proquest/recordProQuest.py')])
p('P07', 'File formats are recognised by content and never confused',
  'A well-formed Web of Science, Medline, Scopus or ProQuest file whose texts do not contain the marks of another format is recognised by its own detector and by no other, so it is read by the matching reader whatever its name. A file that is none of these, including an empty one or undecodable bytes, is recognised by no detector, none of them raises, and building a collection from it raises an error instead of returning records.',
  I, 'all well-formed files of the four formats and all other byte strings',
  'tests check one file per format',
  ['fileHandlers.py', 'WOS/wosHandlers.py', 'medline/medlineHandlers.py', 'scopus/scopusHandlers.py', 'proquest/proQuestHandlers.py'],
  [('detectors', 'WOS/wosHandlers.py:isWOSFile, medline/medlineHandlers.py:isMedlineFile, scopus/scopusHandlers.py:isScopusFile, proquest/proQuestHandlers.py:isProQuestFile'), ('dispatch', 'fileHandlers.py:recordHandlers')])
p('K01', 'A collection built from files or records holds all of them',
  'A collection built from a directory holds exactly the union of the records of its recognised files whose name ends with the requested extension, it is marked bad exactly when one of them could not be read properly, and its errors then name exactly those files. A collection built from any iterable of records, including a one-shot one, holds exactly those records, and an iterable containing anything else is rejected. Adding two record collections gives a collection with the records of both.',
  ['inputs', 'configurations'], 'all directories of good, damaged and foreign files, all extensions, all iterables of records',
  'tests build from one directory and one list',
  [RC, 'grantCollection.py'], [('RecordCollection constructor', RC + ':RecordCollection.__init__/__add__'), ('GrantCollection constructor', 'grantCollection.py:GrantCollection.__init__')])
p('K02', 'The directory cache never changes the result',
  'Loading a directory with caching on gives the same records, error marks and errors as loading it without, on the first load and on later ones that use the cache. If a file of the directory was added, removed or changed since (as its modification time shows), or the cache is truncated, unreadable or was made for another name or extension, the files are read again. A damaged cache never makes loading fail.',
  ['histories', 'crash_points', 'configurations'], 'all histories of loads and changes to the directory and all truncation points of the cache file',
  'tests load one directory twice; staleness and truncation quantify over histories and crash points',
  [MC, RC], [('_loadFromCache/_createCache', MC + ':Collection'), ('use', RC + ':RecordCollection.__init__')])
# ---------------------------------------------------------------- analysis
p('A01', 'Ranked series count every occurrence and rank by count',
  'For any tag, the ranked series lists each value occurring under that tag exactly once, with the number of times it occurs over all records, restricted to the allowed values if a limit is given. The list is ordered by count, greatest or least first as asked. Ranks start at one for the greatest count, equal counts share a rank, and each smaller distinct count has the next rank, and the list, rank and table forms agree.',
  I, 'all collections, tags and option combinations',
  'tests check a few entries of one series',
  [MC], [('rankedSeries', MC + ':CollectionWithIDs.rankedSeries')])
p('A02', 'Time series list every value with every year it occurs and how often',
  'For any tag, the time series has exactly one row for each value and year such that some record of that year has the value, restricted to the allowed values if a limit is given, and records without a year are left out. The count of a row is the number of occurrences of the value in the records of that year. Rows are ordered by year, latest or earliest first as asked, and without a tag the rows are the records with their years.',
  I, 'all collections, tags and option combinations',
  'tests check a few entries of one series',
  [MC], [('timeSeries', MC + ':CollectionWithIDs.timeSeries')])
p('A03', 'Co-occurrence counts equal the number of joint occurrences',
  'For a key tag and counted tags, the result has a key for exactly each value of the key tag, and for each key and each value of a counted tag the count is the sum, over all records, of the number of times the pair occurs together in the record. Pairs that never occur together have no entry.',
  I, 'all collections of records and all combinations of key and counted tags',
  'tests check a few counts of one file',
  [MC], [('cooccurrenceCounts', MC + ':CollectionWithIDs.cooccurrenceCounts')])
p('A04', 'Local citation statistics count every cited item',
  'The local citation statistics map each citation made by some record to the number of times the records cite it, and nothing else; by journal, year or author they do the same for these parts of the citations, leaving out citations without that part. The table form lists the same keys and counts.',
  I, 'all collections of records with any citations, repeated or partial',
  'tests check a few counts of one file',
  [RC], [('localCiteStats', RC + ':RecordCollection.localCiteStats')])
p('A05', 'Finding the records citing something returns exactly those records',
  'For a record, an ID of a record in the collection, or a citation, the result holds exactly the records of the collection one of whose citations equals the citation concerned. An ID that is not in the collection gives an empty result, and the collection itself is unchanged.',
  I, 'all collections and all records, IDs and citations',
  'tests look up one ID and one citation',
  [RC], [('localCitesOf', RC + ':RecordCollection.localCitesOf')])
p('A06', 'Filtering by citation content keeps exactly the matching records',
  'Filtering a collection by a text and a citation field keeps exactly the records that have at least one citation whose field matches (contains the text, ignoring case unless asked otherwise for the full text; equals it for years; is anonymous or bad for these two), even if earlier citations of the record lack that field. The reversed filter keeps exactly the other records, so the two results partition the collection, which is itself unchanged.',
  I, 'all collections, all fields and all search texts',
  'tests check a few result sizes on one file',
  [RC], [('citeFilter', RC + ':RecordCollection.citeFilter')])
p('A07', 'Extracted citations are exactly the ones asked for, with correct counts',
  'The citations extracted from a collection are exactly the different citations its records make, or exactly those among them whose given field has one of the given values. In the table form each different citation has one row with its text, year, journal and author, and the count columns give the number of times it was cited, the share of all extracted citations, and the share of those of its year. A single record gives its own citations in the same way.',
  I, 'all collections, fields and values',
  'tests check a few sizes',
  [RC, MR], [('getCitations', RC + ':RecordCollection.getCitations'), ('record getCitations', MR + ':ExtendedRecord.getCitations'), ('_pandasPrep', MR + ':_pandasPrep')])
p('A08', 'Reference year spectra count every reference and fill every year',
  'The spectrum has exactly one row for each year between the bounds given (or between the earliest and latest cited years) except the dropped ones. The count of a row is the number of references to that year from records published at least two years later or without a year, and its deviation is that count minus the median of the counts of the five years around it, whether or not these are shown. Years with a greater deviation have a greater rank number, ranks are distinct, and years without references have rank zero unless asked otherwise.',
  I, 'all collections with references to years after 1000, all bounds and dropped years',
  'tests check a few values on one file',
  [RC], [('rpys', RC + ':RecordCollection.rpys')])
p('A09', 'Text tables have one complete row per record or word',
  'The table for language processing has for each record exactly one row, with its ID, year, title, keywords, cleaned abstract and the extra columns asked for, so all columns have as many entries as there are records. The table for burst analysis has one row per word of the cleaned field of each record that has a year and the field, each with that record\'s year, in the order of the text. Cleaning only applies the steps that were asked for.',
  I, 'all collections, tags, extra columns and option combinations',
  'tests compare the size of one output file',
  [RC], [('forNLP/forBurst', RC + ':RecordCollection.forNLP/forBurst')])
p('A10', 'The dictionary table is rectangular and holds every field of every record',
  'The table form of a collection has one column for each tag occurring in some record, or for each tag asked for, plus the author count column if wanted, and every column has exactly one entry per record, all in the same record order. The entry is the value of that tag in that record, processed or raw as asked, or nothing if the record lacks it, and the author count is the number of its short author names.',
  I, 'all collections and all choices of tags and options',
  'tests check the number of columns on one file',
  [RC, MR], [('makeDict', RC + ':RecordCollection.makeDict'), ('subDict', MR + ':ExtendedRecord.subDict')])
p('A11', 'Gender counts add up to the number of authors',
  'Given a table from first names to genders, each different author of a record is classified by the first word after the comma in the name, in any letter case, and as unknown when the table lacks it or the name has no such part. The counts of male, female and unknown authors of a record are the sizes of these classes, so they sum to the number of different authors, the fractions are the counts divided by that sum, and the counts of a collection are the sums over its records.',
  I, 'all name tables, records and author lists',
  'needs a downloaded table, so no stable test reaches it',
  ['genders/nameGender.py', MR, RC], [('nameStringGender/recordGenders', 'genders/nameGender.py'), ('authGenders', MR + ':ExtendedRecord.authGenders'), ('genderStats', RC + ':RecordCollection.genderStats')])
# ---------------------------------------------------------------- networks
p('N01', 'Co-author networks have exactly the authors and collaborations',
  'The co-author network has exactly one node per author occurring in a record, and an edge between two authors exactly when some record lists both. The weight of an edge is the number of times the pair is listed together, and the count of a node the number of times the author is listed, when asked for.',
  I, 'all collections of records with any author lists and all choices of weights, counts and short names',
  'tests check total numbers of nodes and edges on one file, not weights or counts',
  [RC], [('networkCoAuthor', RC + ':RecordCollection.networkCoAuthor')])
p('N02', 'Co-citation networks have exactly the citations and joint citations',
  'The co-citation network has exactly one node per different citation (or author, journal or year, as chosen) made by a record and not filtered out, and an edge between two nodes exactly when one record cites both. Edge weights are the number of joint citations and node counts the number of citations, summed over all records, when asked for. Filtering leaves out exactly the anonymous citations, those containing a given word and those outside the collection, as chosen.',
  I, 'all collections with any citations and all choices of node type, filters, weights and counts',
  'tests check total numbers on one file',
  [RC], [('networkCoCitation', RC + ':RecordCollection.networkCoCitation'), ('addToNetwork/filterCites/makeNodeTuple/makeID', RC)])
p('N03', 'Citation networks point from each record to exactly what it cites',
  'The citation network has an edge from the citation of a record to each citation the record makes (reversed if asked for), and no others, and its nodes are exactly the ends of these edges together with the citing records. Edge weights are the number of times the citation is made, when asked for, and node counts the number of times a node is cited plus one for the record that introduced it, whatever node type is chosen. Weighted edges between whole citations also carry the number of years between the two, 0 included.',
  I, 'all collections with any citations and all choices of node type, direction, weights and counts',
  'tests check total numbers on one file',
  [RC], [('networkCitation', RC + ':RecordCollection.networkCitation'), ('addToNetwork/filterCites/makeNodeTuple/makeID', RC)])
p('N04', 'Bibliographic coupling weights are the numbers of shared references',
  'The bibliographic coupling network joins two records exactly when they share a reference, and the weight of an edge is the number of different references they share. Its nodes are exactly the records of the collection that make or receive a citation within it, plus nothing from outside the collection.',
  I, 'all collections of complete records with any references',
  'tests check total numbers on one file',
  [RC], [('networkBibCoupling', RC + ':RecordCollection.networkBibCoupling')])
p('N05', 'One-mode and multi-level networks count joint occurrences of values',
  'The one-mode network of a tag, or the multi-level network of several tags, has exactly one node per value of these tags, and an edge between two values exactly when some record has both. The weight of an edge is the number of pairs of their occurrences in common records and the count of a node its number of occurrences, when asked for, and a name-changing function is applied to every value if given. A node attribute asked for holds, on each node, exactly the values of that tag (a list) in the records having the node\'s value.',
  I, 'all collections, all tags and all choices of weights, counts and stemmers',
  'tests check total numbers on one file',
  [MC], [('networkMultiLevel/networkOneMode', MC + ':CollectionWithIDs')])
p('N06', 'Two-mode networks join exactly the co-occurring values of two tags',
  'The two-mode network of two tags has exactly one node per value of either tag, marked with its tag, and an edge from a value of the first to a value of the second exactly when some record has both. Edge weights are the number of joint occurrences and node counts the number of occurrences, when asked for, and records with only one of the tags still contribute their values as nodes. With an edge attribute there is one such edge for each value of that tag in the common records.',
  I, 'all collections, all pairs of tags with different values and all choices of direction, weights, counts, types and stemmers',
  'tests check total numbers on one file and do not pass at present',
  [MC], [('networkTwoMode', MC + ':CollectionWithIDs.networkTwoMode')])
p('N07', 'Multi-mode networks join co-occurring values of different tags',
  'The multi-mode network of several tags has exactly one node per value of these tags, and an edge between two values exactly when some record has one under one tag and the other under another tag. Edge weights are the number of such joint occurrences and node counts the number of occurrences, when asked for.',
  I, 'all collections, all lists of tags and all choices of weights, counts and stemmers',
  'tests check total numbers on one file and do not pass at present',
  [MC], [('networkMultiMode', MC + ':CollectionWithIDs.networkMultiMode')])
p('N08', 'Co-investigator networks have exactly the investigators and shared grants',
  'The co-investigator network has exactly one node per investigator named in a grant and an edge between two exactly when some grant names both, and the co-institution network does the same for institutions. Edge weights are the number of times the pair is named together and node counts the number of times an investigator is named, when asked for. Each node tells a field in which it is named.',
  I, 'all collections of grants, all tags and separators',
  'tests build one network and do not pass at present',
  ['grantCollection.py', 'grants/baseGrant.py'], [('networkCoInvestigator', 'grantCollection.py:GrantCollection.networkCoInvestigator'), ('getInvestigators', 'grants/baseGrant.py:Grant.getInvestigators')])
# ---------------------------------------------------------------- graph helpers
p('G01', 'Dropping edges removes exactly the ones outside the bounds',
  'Dropping edges by weight removes exactly the edges whose weight is below the minimum or above the maximum, both bounds being kept, and self loops if asked for; all other edges and all nodes stay, with their attributes. If an edge has no weight and this is not allowed, a key error is raised.',
  I, 'all graphs, bounds and options',
  'tests check one resulting size',
  [GH], [('dropEdges', GH + ':dropEdges')])
p('G02', 'Dropping nodes removes exactly the ones outside the bounds',
  'Dropping nodes by degree removes exactly the nodes the sum of whose edge weights (or number of edges) is below the minimum or above the maximum, both bounds being kept and edges without weight counting one; dropping nodes by count does the same for the count attribute, keeping nodes without it if that is allowed. The remaining nodes keep their attributes and exactly the edges among them stay, with theirs.',
  I, 'all graphs, bounds and options',
  'tests check one resulting size',
  [GH], [('dropNodesByDegree/dropNodesByCount', GH)])
p('G03', 'Merging graphs adds counts and weights and keeps everything else',
  'After merging, the target graph has exactly the nodes and edges of both graphs. The count of a node and the weight of an edge in both graphs are the sums of the two, and every other attribute the target had keeps its value, while nodes and edges only in the added graph bring their attributes. The added graph is unchanged.',
  I, 'all pairs of graphs of the same kind with any attributes',
  'tests check total sizes of one merge',
  [GH], [('mergeGraphs', GH + ':mergeGraphs')])
p('G04', 'Writing a graph to files and reading it back gives the same graph',
  'Writing any graph with text nodes to its edge and node files and reading these back gives a graph with the same nodes and edges, each with the same attribute names and values as text (attributes missing on some nodes or edges come back as empty text). Leaving out the edge attributes loses only these.',
  I, 'all directed and undirected graphs with arbitrary text in names and attribute values',
  'tests round-trip one network and compare sizes',
  [GH], [('writeGraph/writeEdgeList/writeNodeAttributeFile/readGraph', GH)])
p('G05', 'Degree tables and degree distributions agree with the graph',
  'The degree of each node is the sum of the weights of the edges entering it, leaving it, or both, as chosen, an edge without the weight counting one unless that is forbidden. The degree distribution has, for each number up to the greatest degree, the number of nodes with that degree, so its entries sum to the number of nodes.',
  I, 'all graphs with integer weights and all options',
  'tests check one distribution',
  [GH], [('getNodeDegrees/getDegreeDistribution', GH)])
p('G06', 'Two-mode edge lists name every edge once, first mode first',
  'The file written for a two-mode graph has exactly one line per edge, with the index of its node of the first mode, the index of its node of the second mode and, if asked for, its weight, where the indices number the nodes from one without gaps or repeats. Graphs with one mode, with more than two, with nodes lacking a mode or with an edge inside one mode are rejected.',
  I, 'all two-mode graphs and all violations of that form',
  'no stable test reaches it',
  [GH], [('writeTnetFile', GH + ':writeTnetFile')])
# ---------------------------------------------------------------- writers
p('W01', 'The csv export has a complete row for every record',
  'The csv file of a collection has one row per record and one column per tag occurring in some record, or per tag asked for, preferred tags first. Each cell holds the text of the value of that tag in that record, the entries of lists (the names, for values filed under names) joined by the list separator, and is empty if the record lacks it. Split by a tag, each value\'s file holds exactly the records having that value.',
  I, 'all collections and option combinations, with texts containing separators, quotes and line breaks',
  'tests compare the size of one file',
  [RC], [('writeCSV', RC + ':RecordCollection.writeCSV')])
p('W02', 'The BibTeX export keeps every field with its full text',
  'The BibTeX entry of a record has its authors and then one line for each of its fields (or of the common fields, in reduced form), holding the full text of the value, list values joined by the word and; a text longer than the given maximum is divided into pieces of at most that length, whose concatenation is the text without double quotes. A bad record is rejected. The BibTeX file of a collection holds the entries of all its good records.',
  I, 'all records, texts and maximum lengths',
  'tests compare the size of one file, and one of the sizes fixes a present loss of text',
  [MR, RC], [('bibString/_bibFormatter', MR), ('writeBib', RC + ':RecordCollection.writeBib')])
# ---------------------------------------------------------------- diffusion
p('D01', 'Diffusion counts equal the number of citations from target to source',
  'The diffusion count of a source record is the number of citations in the target records that equal its own citation (or one of its citations, one per author, if all authors are used), and every source record has an entry, zero if it is never cited. Counting by a tag instead of by record adds up the records with the same value, an extra tag divides the counts by its values in the target records, and the comparison counts are the same counts taken within the source. The table form lists the same numbers.',
  I, 'all pairs of collections whose source records have different citations, and all option combinations',
  'tests check a few numbers of one pair of files',
  ['diffusion.py'], [('diffusionCount', 'diffusion.py:diffusionCount')])
p('D02', 'Adding diffusion counts labels every node with its own count',
  'Adding diffusion counts to a graph gives every node its count under the chosen label, zero for nodes without one, with the extra tag also one attribute per value, and changes no other node, edge or attribute.',
  I, 'all graphs and all count tables',
  'no stable test reaches it',
  ['diffusion.py'], [('diffusionAddCountsFromSource', 'diffusion.py:diffusionAddCountsFromSource')])
p('D03', 'Diffusion graphs join exactly the cited sources to the targets citing them',
  'The diffusion graph of two collections by a source and a target type (the record itself or a tag) has exactly one node per value of the source type in the source records and per value of the target type in the target records, marked as source, as target or as both. An edge joins a source value to a target value exactly when a target record with that value cites a source record with that one, and its weight, when asked for, is the number of these citations.',
  I, 'all pairs of collections, all types and all citations between them',
  'tests count the nodes and edges of graphs made from one file',
  ['diffusion.py'], [('diffusionGraph', 'diffusion.py:diffusionGraph'), ('makeNodeID', 'diffusion.py:makeNodeID')])
# ---------------------------------------------------------------- grants
p('J01', 'Grant strings in records are split into their parts without loss',
  'Any Medline or Scopus grant string can be turned into a grant without an exception, and the grant keeps the original text. A Medline grant string divided by slashes gives its last part as the country, the part before it as the agency, and the rest as number and two-letter code; a Scopus grant string divided by commas gives its last part as the agency and the ones before it as agency code and code. A Medline string without a slash is marked bad.',
  I, 'all strings',
  'tests check the number of grants of one file',
  ['grants/medlineGrant.py', 'grants/scopusGrant.py'], [('constructors', 'grants/medlineGrant.py:MedlineGrant.__init__, grants/scopusGrant.py:ScopusGrant.__init__')])
p('J02', 'Grants spread over several rows or files are merged without loss',
  'Reading grant tables gives one grant per different grant key, and each field of a grant holds the non-empty values of all its rows, in the order of reading, joined by a semicolon and a space, whether empty cells at the end of a row are written or left out. This holds for rows in one file and for rows in different files of a directory, and rows of other tables each give one grant of their own with exactly the values of the row (equal rows without investigator names, in tables that need these, give one bad grant).',
  I, 'all tables of grant rows with any repetition of keys and empty cells',
  'tests count the grants of the sample files',
  ['grants/nsercGrant.py', 'grants/baseGrant.py', 'grantCollection.py'], [('NSERCGrant.update/parserNSERCfile', 'grants/nsercGrant.py'), ('merge across files', 'grantCollection.py:GrantCollection.__init__'), ('csvAndLinesReader/parserFallbackGrantFile', 'grants/baseGrant.py')])
p('J03', 'Investigator lists hold every named investigator exactly as given',
  'The investigators of a grant under the given tags are exactly the parts between the separators of the texts of these tags, trimmed, in the order of tags and text (known tags of the grant kind after the given ones), or for tags holding lists the part before the first separator of each entry, and tags the grant lacks are skipped. Grant kinds with known name or institution fields include those fields as well. The lists of tags passed in are not changed.',
  I, 'all grants, tags and separators',
  'tests check a few grants',
  ['grants/baseGrant.py', 'grants/nsercGrant.py', 'grants/nsfGrant.py'], [('getInvestigators/getInstitutions', 'grants/baseGrant.py:Grant')])
p('J04', 'A grant award file gives one grant with all its elements',
  'Reading an award file in XML gives one grant, which is marked bad exactly when the award has no ID. Each element without parts gives its text under its name, and each element with parts adds to the list under its name the texts of its parts joined by a semicolon and a space. Each investigator is listed as first name, last name, semicolon and the other details, and organisations give their directorates and divisions in the same way.',
  I, 'all well-formed award files with any elements and any texts',
  'tests read one directory of award files and count the grants',
  ['grants/nsfGrant.py'], [('parserNSFfile/NSFGrant', 'grants/nsfGrant.py')])

with open(OUT, 'w', encoding='utf-8') as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P))
