"""The checks: how many cases, and what makes one non-trivial."""
PROPS = {
    'C01': dict(quick=60000, thorough=1500000, rule='random sheets of numbers, booleans, errors and formula results at random positions, in randomly chosen BIFF8 record kinds, '
                'among unrelated records, in a random compound file; non-trivial: at least two record kinds for cells and three cells; distinct by cells and record counts'),
    'C02': dict(quick=48000, thorough=400000, rule='random workbooks of texts (shared strings, formula results, sheet names) in random encodings, split over continuation records at random legal points; '
                'non-trivial: some text and either a continuation record, 16-bit storage of 8-bit text, or rich or phonetic data; distinct by cells and number of continuations'),
    'C03': dict(quick=40000, thorough=800000, rule='random workbooks stored in clear and encrypted (default password; other passwords and methods must be refused) with random salt and verifier; '
                'non-trivial: more than one cipher block, or an encryption that must be refused; distinct by contents, salt and verifier'),
    'C04': dict(quick=75000, thorough=600000, rule='random sets of streams in random compound-file layouts, read completely, with iotest.TestReader, or by random reads and seeks compared with bytes.Reader; '
                'non-trivial: more than one stream or more than three operations; distinct by names, size, layout and operations'),
    'C05': dict(quick=24000, thorough=600000, rule='random sheets of all kinds of values, serialised as XML in random equivalent ways; '
                'non-trivial: at least three cells and two kinds of storage; distinct by cells and serialisation'),
    'C06': dict(quick=72000, thorough=500000, rule='random workbooks of 1 to 40 sheets with random names and states, in either format, parts and streams in any place; '
                'non-trivial: at least three sheets; distinct by names, states and size'),
    'C07': dict(quick=60000, thorough=500000, rule='random workbooks written as both XLS and XLSX, and text tables written in all four formats, all readings compared; '
                'non-trivial: at least three non-blank cells (four texts in tables); distinct by contents and formats'),
    'C08': dict(quick=48000, thorough=500000, rule='random histories of open, get, list, partial reads and close over up to four files of all formats, every row compared with a first reading; '
                'non-trivial: six operations or more with a read after close, a repeated get or several files; distinct by history and contents'),
    'C09': dict(quick=6000, thorough=120000, race=True, procs=3, shards=6, rule='2 to 6 random files of all formats processed by a goroutine each under the race detector, each result compared with that of processing alone; '
                'every case has at least two goroutines and is non-trivial; distinct by contents', technique='property-based testing (rapid) of concurrent runs under the race detector'),
    'C10': dict(quick=60000, thorough=700000, rule='random sheets with random disjoint merged ranges, within and past the extent, in either format; '
                'non-trivial: at least one merged range; distinct by contents and ranges'),
    'C11': dict(quick=140000, thorough=900000, rule='random sheets with up to five hyperlinks (URL, file and string targets, with or without name, frame, location, range), in either format; '
                'non-trivial: at least one link to an external target; distinct by contents and links'),
    'C12': dict(quick=80000, thorough=700000, rule='random tab-separated tables of any shape (ragged, up to thousands of rows or columns, lines of up to 1.1 MB, LF and CRLF mixed), read by all views and scanned field by field as every supported type; '
                'non-trivial: at least two fields; distinct by file contents'),
    'C13': dict(quick=80000, thorough=700000, rule='random tables written as CSV with random quoting and line ends, read by all views, or with a quoting mistake at a random place, which must be refused; '
                'non-trivial: at least one quote and a row; distinct by file contents'),
    'C14': dict(quick=80000, thorough=200000, rule='random registries of scripted readers (accepting, refusing in various ways, failing) among the real ones, spreadsheets under any file name, near-spreadsheets, unreadable files; '
                'non-trivial: more than one reader involved or a file that must be recognised or refused; distinct by script, contents and names'),
    'C15': dict(quick=36000, thorough=900000, cpu=40, fuzz=['FuzzC15Stream', 'FuzzC15CFB', 'FuzzC15Parts', 'FuzzC15Text', 'FuzzC15Format'], rule='valid files of all formats damaged at the level of bytes, compound-file structures, BIFF records (before encryption, too), ZIP entries, package parts or XML, odd format codes, random bytes; opened by every reader and read completely, scanned with fitting and other destinations; '
                'non-trivial: files that are not random bytes, or were opened; distinct by file contents', technique='property-based structure-aware mutation fuzzing (rapid) with crash, hang and memory oracles'),
    'C16': dict(quick=96000, thorough=500000, rule='rows of random files in every format and of random sheets, all views compared, scanned into random lists of right, wrong, too many and unsupported destinations; '
                'non-trivial: a row of at least two cells of different kinds; distinct by contents and destinations'),
    'C17': dict(quick=60000, thorough=2000000, rule='random histories of puts, text overrides, links and resizes in and out of bounds, compared with a model table after every step or at the end; '
                'non-trivial: at least five operations of two kinds; distinct by history'),
    'C18': dict(quick=24000, thorough=200000, rule='random files of every format, intact or damaged at any level, opened by random readers, read partly or wholly and closed; descriptors counted before and after; '
                'non-trivial: the file exists and is not empty; distinct by contents and history'),
    'C19': dict(quick=72000, thorough=500000, rule='random serials in both date systems through the converter, and in sheets of either format under built-in date formats; '
                'non-trivial: a serial with a time of day or the 1904 system; distinct by serials and formats'),
    'C20': dict(quick=80000, thorough=3000000, rule='random finite numbers of all magnitudes (integers, decimals, ties, extremes) under every built-in numeric format, through the formatter and in sheets of either format; '
                'non-trivial: a number of magnitude 0.005 or more or an integer; distinct by numbers and formats'),
    'C21': dict(quick=200000, thorough=2000000, rule='random custom formats of the grammar (placeholders, thousands, decimals, percent, exponent, literals, colours, one to four sections) with numbers chosen for their sections, through the formatter and in sheets; '
                'every case has a format and is non-trivial; distinct by codes and displays'),
    'C22': dict(quick=300000, thorough=2000000, rule='random date formats of the grammar with random moments, and look-alikes without date codes, through the formatter and in sheets; '
                'non-trivial: at least one date format; distinct by codes and displays'),
    'C23': dict(quick=450000, thorough=8000000, rule='random fractions, decimals and reals with digit limits 1 to 6, through the approximation and the display; '
                'non-trivial: a number that is not an integer; distinct by number and limit'),
    'C24': dict(quick=90000, thorough=800000, rule='random tables of number formats and cell styles with cells of every kind referring to them, in either format; '
                'non-trivial: at least two styles and two cells; distinct by tables and cells'),
    'C25': dict(quick=320000, thorough=3000000, rule='random pairs and triples of cells from Go values of every supported type; order laws, natural order, conversions; '
                'every case is non-trivial; distinct by values'),
    'C26': dict(quick=7000, thorough=120000, tools=True, rule='random sets of files of every format (some unreadable) given to the built commands with random options, some under the race detector; '
                'non-trivial: more than one file or sheet; distinct by contents and options'),
    'C27': dict(quick=480000, thorough=2000000, rule='random numbers, texts and booleans without a number format, through the formatter and in sheets of either format; '
                'non-trivial: more than two values or a non-integer; distinct by values'),
    'C28': dict(quick=400000, thorough=6000000, rule='random trees of wrapped errors over sentinels, typed errors and chains, and malformed CSV files at a random line; message, errors.Is and errors.As against the set of leaves; '
                'non-trivial: more than one cause; distinct by tree'),
    'C29': dict(quick=40000, thorough=800000, rule='random workbooks in either format (plain and encrypted), read intact and with one to six faults each: cut off anywhere, an allocation chain broken, packed bytes altered, a part missing or in another compression; '
                'non-trivial: the damage was reported; distinct by damaged contents'),
    'C30': dict(quick=80000, thorough=2000000, rule='random headers (one altered), passwords and data, written to the decryptor in random pieces with reads in between, repeatedly after a reset, compared with an independent RC4 in blocks; '
                'non-trivial: more than one block in more than two operations; distinct by salt, password, sizes and number of operations'),
}
