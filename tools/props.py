#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to edit)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, quant, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, na=na))

p('C01', 'Variable length integers read back exactly as written',
  'Every signed 64 bit value written as a base-128 integer reads back as the same value, from exactly the bytes that were written, leaving the stream right behind it. Decoding any byte sequence is total: it stops at the end of the stream or at the first byte without a continuation bit and never touches memory outside the record.',
  ['inputs'], 'all 2^64 values and all encoded byte sequences up to the maximal length, at any stream position',
  'The test round-trips a handful of values; the boundaries between encoded lengths and the shift limits are value dependent.',
  ['datas/base_128.hpp', 'datas/bincore_fwd.hpp'], ['bint128::Read', 'bint128::Write', 'buint128'])
p('C02', 'Byte order conversion is an exact involution on every type',
  'Converting the byte order of a value reverses the bytes of every scalar in it and nothing else: arrays, nested aggregates and classes that convert themselves member by member included. Converting twice gives back every bit, including NaN payloads.',
  ['inputs'], 'all bit patterns of every scalar width, and of arrays, vectors and user classes built of them',
  'Tests convert a few constants; bit patterns such as signalling NaNs or values whose bytes agree are not covered.',
  ['datas/endian.hpp', 'datas/endian_fwd.hpp', 'datas/vectors.hpp'], ['FByteswapper', 'fbswap', 'byte_swapper detection of SwapEndian'])
p('C03', 'Binary writing and reading are inverse',
  'Whatever a binary writer writes (values, arrays, strings with or without terminator, containers with any counter type, user classes) a binary reader with the same byte order setting reads back equal, consuming exactly the bytes produced. The byte layout is the host order, or the reversed one when the byte order is swapped.',
  ['inputs', 'histories'], 'all element values, both byte orders, all container sizes within the bound and sequences of mixed records',
  'The tests write one fixed record sequence; element values, counters and byte order combinations are unbounded.',
  ['datas/binreader_ref.hpp', 'datas/binwritter_ref.hpp', 'datas/binreader_stream.hpp', 'datas/binwritter_stream.hpp', 'datas/internal/bincore_endian.hpp'], ['BinReaderRef::Read/ReadContainer/ReadString', 'BinWritterRef::Write/WriteContainer/WriteT'])
p('C04', 'Relative navigation, padding and position stacks are exact',
  'With any relative origin set, seeking and telling agree with each other and with the absolute position; padding advances to the next multiple of the alignment and never past it; saved positions are restored exactly. Opening or closing never leaves a stream positioned elsewhere than the caller asked for.',
  ['inputs', 'histories'], 'all origins, offsets and alignments within the bound, all orders of push, pop, seek and pad operations',
  'Tests use two origins and one alignment; the arithmetic depends on position, origin and alignment together.',
  ['datas/internal/bincore_navi.hpp', 'datas/binreader_ref.hpp', 'datas/binwritter_ref.hpp', 'datas/internal/bincore_file.hpp'], ['BinStreamNavi', 'ApplyPadding', 'SetRelativeOrigin', 'Push/Pop'])
p('C05', 'Bit field members are independent and keep their width',
  'Storing a value into one member of a packed bit field stores exactly its low bits there and leaves every other member unchanged. Reading gives back the stored value, and a byte order conversion applied twice restores the field; the layout conversion between bit orders moves every member intact.',
  ['inputs', 'histories'], 'all prior contents, all stored values, all member layouts of the declared schemas',
  'Tests store a few constants into one layout; interactions need prior contents with arbitrary bits.',
  ['datas/bitfield.hpp', 'datas/internal/bitfield.inl'], ['BitFieldType::Get/Set', 'BitMember', 'SwapEndian'])
p('C06', 'Flag sets behave as sets of enumerators',
  'Setting, clearing, toggling and testing flags by enumerator touches exactly the bits of that enumerator for every underlying width, and the operators agree with set algebra. Conversions to and from the raw value lose nothing.',
  ['inputs', 'histories'], 'all prior values, all enumerators, every underlying type',
  'Tests exercise a few enumerators of one width.',
  ['datas/flags.hpp'], ['es::Flags'])
p('C07', 'Borrowed storage is used in place and never freed or overrun',
  'A container linked to external storage works in place, behaves as an ordinary container under every later operation, never writes behind the storage, never frees it and never shares it with a copy. Smart pointers with a borrowing deleter destroy an owned object exactly once and a borrowed one never.',
  ['inputs', 'histories'], 'all contents and all sequences of container operations up to the stated length',
  'The test performs one link and one unlink; reallocation, copies and moves after linking are histories.',
  ['datas/allocator_hybrid.hpp', 'datas/deleter_hybrid.hpp'], ['allocator_hybrid::allocate/deallocate', 'LinkStorage', 'DisposeStorage', 'deleter_hybrid'])
p('C08', 'Encryption is undone by decryption and stays inside the buffer',
  'For every key, mode, initialisation vector and message, decoding what was encoded restores the message, the bytes of an incomplete trailing block and everything outside the buffer stay untouched, and the result does not depend on how the key was stored. Blowfish follows the published algorithm, so that data of other tools is interchangeable.',
  ['inputs', 'configurations'], 'all messages and initialisation vectors within the size bound, every mode; keys of every length with arbitrary bytes',
  'There is no test of the ciphers; the space of keys and blocks cannot be sampled meaningfully.',
  ['datas/encrypt/blowfish.cpp', 'datas/encrypt/blowfish.h', 'datas/encrypt/blowfish2.h', 'datas/encrypt/xorenc.hpp'], ['BlowfishEncoder::Encode/Decode/SetKey', 'BlowfishEncoder2', 'XOREncoder'])
p('C09', 'Path decomposition is faithful and total',
  'For every path, folder, file name and extension split it without loss: joined again they give the path with separators normalised to one form. The extension is what follows the last dot of the file name alone, and no input, however odd or empty, is read out of bounds; relative placement of one path against another is consistent.',
  ['inputs'], 'all strings up to the bound over all bytes, for both path components',
  'Tests decompose a handful of well formed paths.',
  ['datas/fileinfo.hpp'], ['AFileInfo::Load', 'CatchBranch', 'ExplodeBranches', 'GetFolder/GetFilename/GetExtension'])
p('C10', 'Reduced precision floats convert exactly',
  'Every value of a reduced precision float widens to the number its sign, exponent and fraction fields denote, zeroes, denormals, infinities and NaNs included, and narrowing it again gives back the same bit pattern. Narrowing is monotone and never turns a finite in-range number into another sign or an infinity.',
  ['inputs', 'configurations'], 'all bit patterns of each width and all 2^32 single precision values',
  'Tests compare a few constants; wrong results occur in isolated exponent ranges.',
  ['datas/float.hpp'], ['esFloat conversion constructors and operators', 'float16'])
p('C11', 'String hashes are the published functions, whole input, no overread',
  'Hashes of equal byte strings are equal whatever their alignment, length class or compile/run time evaluation, they follow the published Jenkins algorithms, computing one reads exactly the bytes of its input, and hash objects compare as the numbers they hold.',
  ['inputs'], 'all byte strings up to the bound, at all alignments and block boundaries',
  'No test hashes a string; the tail handling differs per length.',
  ['datas/jenkinshash.hpp', 'datas/jenkinshash3.hpp'], ['JenkinsHash_', 'JenkinsHash3_'])
p('C12', 'String views answer like standard strings and stay in range',
  'Every query of a string view (comparison, searches in both directions, character set searches, sub-views, copies) gives the answer a standard string of the same characters gives, for every position argument, and never reads outside the viewed range.',
  ['inputs'], 'all contents, needles and positions within the size bound',
  'No test covers the searches; edge cases are combinations of lengths and positions.',
  ['datas/string_view.hpp', 'datas/internal/string_view.inl'], ['basic_string_view::find/rfind/find_*_of/substr/copy/compare'])
p('C13', 'Text helpers cut exactly what they promise and accept any text',
  'The helpers that strip leading and trailing characters or split text return a view of the same characters with exactly the matching ends removed; they accept every text including the empty one and never read outside of it.',
  ['inputs'], 'all texts up to the bound over all bytes',
  'Tests pass a few non-empty strings.',
  ['datas/supercore.hpp', 'datas/internal/sc_type.hpp'], ['es::SkipStartWhitespace', 'es::SkipEndWhitespace', 'es::TrimWhitespace', 'IsEnd/compile time hashing helpers'])
p('C14', 'Stored offsets become the pointers they denote, exactly once',
  'Fixing up a stored offset against a base turns it into the address of that offset for every offset, sign and pointer width, leaves a null offset null, and fixing up a second time changes nothing.',
  ['inputs', 'histories'], 'all offsets within the data, all base placements, 32 and 64 bit pointers, repeated fixups',
  'No test exercises pointer fixups with the address reuse logic.',
  ['datas/pointer.hpp'], ['esPointerX64/X86::Fixup', 'esPointerUnion'])
p('C15', 'A threaded queue runs every task exactly once and waits for all',
  'Running a queue processes every item exactly once, whatever the number of items and of hardware threads and however the workers interleave, and returns only when all are done. It terminates for every queue size, zero included.',
  ['schedules', 'inputs', 'configurations'], 'all interleavings of the workers at queue operations, all queue sizes and thread counts within the bound',
  'The test runs one size on the machine it happens to run on, with whatever schedule occurs.',
  ['datas/multi_thread.hpp'], ['RunThreadedQueue'])
p('C16', 'Messages reach every registered printer once, whole and in order',
  'Each printed message reaches every registered output exactly once, complete, in the order printed and on lines of its own, with the configured decoration only; lines printed concurrently never interleave.',
  ['schedules', 'inputs', 'histories'], 'all sequences of print, flush and configuration operations within the bound, two concurrent printers',
  'The tests use the printer only to report results.',
  ['datas/master_printer.cpp', 'datas/master_printer.hpp'], ['MasterPrinterThread', 'PrintThreadID', 'AddPrinterFunction'])
p('C17', 'Directory scans return exactly the files that pass the filters',
  'A directory scan returns every entry that is no folder, anywhere below the folder, whose name contains one of the filters, each exactly once, with the path that opens it, and nothing else, whatever the names and nesting and whether or not the file system tells entry types; with no filter all pass. Every folder opened is closed; one that cannot be opened is skipped alone.',
  ['inputs', 'configurations'], 'all directory listings within the bound with arbitrary entry names and filters',
  'The tests never scan a directory.',
  ['datas/directory_scanner.cpp', 'datas/directory_scanner.hpp'], ['DirectoryScanner::ScanPath/Scan/AddExtFilter/PassFilter'])
p('C18', 'Creating folders and querying paths reports the truth',
  'Creating the folders of a path, or of a set of paths below a prefix, creates each missing level that names a folder in an order that lets it succeed, and nothing else; levels that exist are kept and a refused level stops nothing else. Creating a single folder returns the outcome of the system. Type queries report a folder, a regular file, something else or an error exactly as the system does.',
  ['inputs', 'fault_sequences'], 'all paths within the bound and all outcomes of each system call',
  'The tests never create folders; failures of system calls do not occur in them.',
  ['datas/stat.hpp', 'datas/internal/stat_ix.inl', 'datas/master_printer.hpp'], ['es::mkdir', 'es::mkdirs', 'FileType'])
p('C19', 'Vector arithmetic is component-wise in every implementation',
  'Every operator and function of the vector classes gives in each component the result of the same scalar operation, whatever the other components hold, and the accelerated four component vector agrees with the portable one bit for bit or within stated rounding. Operations never alter their operands.',
  ['inputs'], 'all component values',
  'Tests check a few operators on one pair of vectors.',
  ['datas/vectors.hpp', 'datas/vectors_simd.hpp'], ['t_Vector2/3/4', 't_Vector4SIMD', 'V4ScalarType', 'V4SimdF/I'])
p('C20', 'Transform matrices obey matrix algebra and round-trip rotations',
  'Multiplying, transposing, inverting and transforming with matrices agrees with matrix algebra on the elements; converting a rotation between quaternion and matrix keeps the rotation; composition from rotation, translation and scale decomposes into the same parts.',
  ['inputs'], 'all element values for structural laws; unit quaternions for rotations',
  'Tests transform one matrix.',
  ['datas/matrix44.cpp', 'datas/matrix44.hpp'], ['esMatrix44::operator*', 'Transpose', 'MakeInverse', 'ToQuat/FromQuat', 'Compose/Decompose'])
p('C21', 'A reflected value set from text is the value the text denotes',
  'Setting a reflected numeric or boolean member from text stores the number the text denotes, saturating at the limits of the member type; a sign on an unsigned member is reported and a text without a number refused without a change; reading an integer or boolean member as text and setting it again changes nothing. Only that member changes.',
  ['inputs', 'configurations'], 'all texts within the length bound, all prior contents, every scalar type',
  'Tests set a few constants per type.',
  ['datas/reflector.cpp', 'datas/reflector.hpp'], ['Reflector::SetReflectedValue', 'GetReflectedValue', 'LimitProxy'])
p('C22', 'Element and index based access to reflected members stays in bounds',
  'Access to an element of a reflected vector or array touches exactly that element, out of range members, elements and types are refused and leave the object unchanged, and the typed accessors convert between number types as assignment does.',
  ['inputs', 'configurations'], 'all member, element and sub-element indices, all values, all prior contents',
  'Tests use valid indices only.',
  ['datas/reflector.cpp', 'datas/reflector.hpp', 'datas/refl_array.hpp'], ['SetReflectedValue(subID, element)', 'SetReflectedValueInt/UInt/Float', 'GetReflectedValueInt/Float'])
p('C23', 'Reflected bit fields and flags change only their own bits',
  'Setting a reflected bit field member or an enumerated flag, by value or by name, changes exactly the bits of that member and saturates instead of spilling; reading returns the stored value with its sign.',
  ['inputs', 'histories'], 'all prior contents, all values and flag indices of 8 to 64 bit fields',
  'Tests use small values inside a 32 bit field.',
  ['datas/reflector.cpp', 'datas/reflector.hpp'], ['EnumFlags handling', 'BFTag proxies'])
p('C24', 'Reflected enumerations map names and values one to one',
  'Setting an enumeration by the name of an enumerator stores its value, getting it returns that name, values without a name are never misnamed, and unknown names are refused with the member unchanged.',
  ['inputs'], 'all names up to the bound and all raw values of the enumeration width',
  'Tests use two valid names.',
  ['datas/reflector.cpp', 'datas/internal/reflector_enum.hpp', 'datas/internal/reflector_enum_reg.hpp'], ['REFEnumStorage', 'SetReflectedValue/GetReflectedValue for enums'])
p('C25', 'Reflected objects survive saving and loading',
  'An object, with the objects nested in it to any depth, saved through its reflection and loaded into another instance of the class gives an equal object, with the stream exactly behind the record, in either byte order of the streams; loading data of another version of the class keeps unknown members out and matched members right, a refused object inside is reported, and foreign or cut off data is refused and changes nothing.',
  ['inputs', 'histories'], 'all member values and string contents within the bound',
  'Tests save and load one object with fixed values.',
  ['datas/reflector_io.cpp', 'datas/reflector_io.hpp'], ['ReflectorBinUtil::SaveClass/LoadClass', 'ReflectorIO::Save/Load'])
p('C26', 'Saved reflection descriptions load back complete',
  'A saved set of class and enumeration descriptions, also one saved behind other data, loads back with every class, member, type, offset, name, alias, alias hash and description the original has, every internal pointer inside the loaded block; loading again replaces what was loaded, and foreign or cut off data is refused.',
  ['inputs', 'configurations'], 'all class and enumeration descriptions within the size bound',
  'The test uses one fixed set and looks at part of it.',
  ['datas/reflector_io.cpp'], ['ReflectorIO fixups', 'ReflectorIOFixupStorage'])
p('C27', 'Reflected objects survive a round trip through XML',
  'An object written to an XML node through its reflection, one node per member or with members as attributes, under names or hashes, and read back into another instance gives an equal object: every element at its index, every axis, every flag, every text whatever its characters; only blanks in front of a text are dropped. The node of the class is found among others; nodes and attributes that name nothing the class has are passed over and members the document has not are kept.',
  ['inputs'], 'all member values and texts within the bound, every writer and reader', 'Tests round-trip fixed values.',
  ['datas/reflector_xml.cpp'], ['ReflectorXMLUtil::Save/SaveV2/SaveV2a/Load/LoadV2'])
p('C28', 'Vertex attribute codecs decode to the numbers the format denotes',
  'For every supported format and data type, decoding a packed attribute gives the components the format denotes (signed or unsigned, normalised or not, floating or integer) in order, single and bulk decoding agree, the normalised ends map to exactly 0 and 1 (or -1 and 1), and only the attribute bytes are read. Arrays hold each element at its stride, pairs and outputs that do not exist are refused, and sampled values unpack as their descriptor declares.',
  ['inputs', 'configurations'], 'all bit patterns for every format and data type combination',
  'Tests decode a few constants per format.',
  ['uni/format.hpp', 'uni/uni_format.cpp', 'uni/internal/format_full.hpp'], ['FormatCodec::Get', 'GetValue', 'Sample', 'PrimitiveDescriptor::Resample'])
p('C29', 'Unified lists iterate every element once, in order, with ownership kept',
  'Iterating any list visits every element exactly once in index order, iterators step and compare as places of that list, an index past the end of a stored list is refused, and elements are shared or owned as declared: borrowed elements are left alone by who asked for them and owned ones are destroyed once.',
  ['inputs', 'histories'], 'all sizes within the bound and sequences of iterator steps',
  'Tests iterate one fixed list.',
  ['uni/virtual_iterator.hpp', 'uni/list.hpp', 'uni/list_vector.hpp', 'uni/common.hpp', 'uni/rts.hpp'], ['VirtualIterator', 'uni::List', 'uni::VectorList', 'uni::PolyVectorList', 'uni::Element', 'ToElement'])
p('C30', 'Errors carry their cause and can be caught as what they are',
  'Every exception thrown by the library can be caught as a standard exception and as its declared category, and its text names the offending value completely; of a magic number that is every byte but trailing zeroes. Building the text reads nothing but the value. Calls that a unified class declares but lacks are logic errors, undeclared ones runtime errors.',
  ['inputs'], 'all offending values', 'The tests never raise them.',
  ['datas/except.hpp', 'uni/internal/exception.hpp', 'uni/internal/motion.inl', 'uni/internal/skeleton.inl', 'uni/internal/model.inl'], ['es::InvalidHeaderError', 'InvalidVersionError', 'FileNotFoundError', 'ThrowVoidCall', 'ModifyError'])
p('C31', 'Block texture decoders write exactly the image the block denotes',
  'Decoding any compressed block yields for each of its 16 texels the colour the block format specifies, every palette entry and mode included, and writes exactly those texels of the destination, wherever the block lies in the image.',
  ['inputs'], 'all 64 and 128 bit blocks, all block positions and image sizes within the bound',
  'There is no test of the decoders.',
  ['formats/BlockDecoder.h', 'formats/BlockDecoder.inl', 'formats/BlockDecoderSimd.hpp'], ['RGBA/BC1..BC5 decoders'])
p('C32', 'Texture headers describe the same format and sizes in both directions',
  'For every format with a legacy form, writing it into a texture header and reading it back gives the format again, with the published field positions, flags, channel masks and bits per texel; the computed mip levels have the size the DDS format gives their extent (halved and at least one texel, whole 4x4 blocks when compressed) and tile the data without gap or overlap; no header content leads out of the bounds of the tables.',
  ['inputs', 'configurations'], 'all header contents, sizes, mip and array counts',
  'There is no test of the texture headers.',
  ['formats/DDS.hpp'], ['DDS::operator=(DDSFormat_*)', 'ComputeBPP', 'ComputeBufferSize', 'ToLegacy'])
p('C33', 'Archive records and the archive file system follow the container format',
  'Every archive record is read and written field by field at the offsets the published ZIP format defines, whatever the byte order setting of the stream, and a record cut off is not taken for a whole one. The archive file system lists exactly the stored files with content and hands out exactly their bytes, also to several threads at once and after being moved; encrypted, compressed, nameless, foreign and truncated contents are refused.',
  ['inputs', 'configurations', 'schedules'], 'all contents of every record; all small archives, all places they can be cut off at, all schedules of two readers within the bound', 'There is no test of archives.',
  ['formats/ZIP.hpp', 'formats/ZIP_istream.inl', 'formats/ZIP_ostream.inl', 'datas/zip_vfs.hpp'], ['ZIP*::Read/Write', 'ZIPVFS', 'ZIPVFSFile'])
p('C34', 'Audio container headers hold the sizes and rates of their data',
  'Audio chunk headers built for given stream parameters have every field at the offset and with the identifier the published formats define; sizes count what lies behind the chunk head, byte rate and frame size follow from channels, sample rate and sample width, chunks follow each other where their sizes and the word alignment of the format say, and only known chunks pass for valid.',
  ['inputs'], 'all stream parameters and field values, chunk chains within the bound', 'There is no test of audio headers.',
  ['formats/WAVE.hpp', 'formats/VAG.hpp', 'formats/MSF.hpp', 'formats/XVAG.hpp', 'formats/FWSE.hpp'], ['RIFFHeader', 'WAVE_fmt', 'WAVE_data', 'WAVEGenericHeader::Next', 'IsValidWaveChunk'])
p('C35', 'Swizzled addressing is a bijection over the texture',
  'Swizzled addressing maps the texels of every texture onto distinct offsets inside the texture and is the published interleaving of coordinate bits, the bits the longer side has left following behind. Setting it up touches nothing else.',
  ['inputs'], 'all coordinates and all power of two sizes within the bound', 'There is no test of it.',
  ['formats/addr_ps3.hpp'], ['MortonAddr', 'MortonSettings'])
p('C36', 'Text conversion between encodings is lossless for valid text',
  'Valid text converts between narrow and wide encodings and back unchanged, for every code point and every text length including zero, and conversion reads nothing outside of the text.',
  ['inputs'], 'all code points and texts up to the bound', 'The tests convert no text.',
  ['datas/unicode.hpp', 'datas/tchar.hpp'], ['es::ToUTF8', 'es::ToUTF1632'])
p('C37', 'The help of settings describes every setting; settings are set by name',
  'The help of settings lists every setting exactly once and in order, indented by its depth, followed by its description if it has one, by the members of the class it consists of (also in arrays) and by the values an enumeration can take, for every mixture of settings with and without descriptions. A setting given as name or alias and text gets the value, other settings keep theirs. A call for help is recognised by exactly its documented spellings.',
  ['inputs', 'configurations'], 'all settings descriptions within the bound, all names and texts in them', 'The one test of settings neither asks for help nor sets anything.',
  ['datas/settings_manager.hpp'], ['SettingsManager::GetHelp'])
p('C38', 'The text of a vector is its components in order',
  'The text, the wide text and the stream output of a vector of 2, 3 or 4 components hold the text of every component, in order, separated by single blanks and nothing else, so that reading them back gives the same components; writing leaves the stream good and its earlier content in place.',
  ['inputs'], 'all component values of all vector sizes and integer types, chosen fractional values', 'Nothing uses these functions in the tests.',
  ['datas/vectors_string.hpp', 'datas/vectors_stream.hpp'], ['std::to_string', 'std::to_wstring', 'operator<<'])
p('C39', 'File readers and writers keep working on the file they opened',
  "A file reader or writer works on the file it was opened with: a writer replaces the file's earlier content, a reader reads back exactly what is in the file from any position and notices its end, a file that cannot be opened is reported by FileNotFoundError or FileInvalidAccessError with its name, and moving a reader or writer (also inside of containers) keeps its position, byte order, origin and file.",
  ['inputs', 'histories'], 'all contents, positions, ways of opening and moves within the bound', 'No test opens a file through these classes or moves one.',
  ['datas/binreader.hpp', 'datas/binwritter.hpp', 'datas/internal/bincore_file.hpp'], ['BinReader', 'BinWritter'])
p('C40', 'Every declared member and enumerator is reflected, whatever their number',
  'A class or enumeration declared with any number of members or enumerators the library can count (1 to 89) is reflected completely: each one exactly once and in order, found by its place, name and alias, set and read alone, and nothing else is known by name.',
  ['inputs', 'configurations'], 'all member counts up to the limit of the library, all members, names and values', 'The tests declare classes and enumerations of about twenty members at most.',
  ['datas/macroLoop.hpp', 'datas/internal/reflector_class.hpp', 'datas/internal/reflector_enum.hpp', 'datas/internal/reflector_enum_reg.hpp'], ['VA_NARGS', 'StaticFor', 'StaticForArgID', 'REFLECTOR_CREATE'])
p('C41', 'A check of the unit testing header fails exactly when it does not hold',
  'Every checking macro of the unit testing header lets its test function go on exactly when the checked value, comparison or expected exception holds, for values and for whole expressions, and otherwise fails it with a report of the place, the expression and the compared values; a group of test functions runs each once, counts and names the failing ones and no others.',
  ['inputs', 'histories'], 'all compared values, all kinds of expressions, all combinations of failing functions', 'The tests are written with these macros: a check that cannot fail makes them pass.',
  ['datas/unit_testing.hpp', 'datas/macroLoop.hpp'], ['TEST_CHECK', 'TEST_EQUAL', 'TEST_THROW', 'TEST_CASES'])
p('C42', 'A settings log holds the configuration and every later message',
  'Creating a log of settings writes a file named after the given name and the current time that starts with the time, the number of threads and every setting, once and in order, under its alias or name with its value; every message printed afterwards on any level is added to it whole and in order, none from before, and the settings stay as they are.',
  ['inputs', 'histories'], 'all values of the settings, messages and levels, times within the bound', 'No test creates a log.',
  ['datas/settings_manager.hpp', 'datas/master_printer.cpp'], ['SettingsManager::CreateLog', 'SettingsManager::printf'])
exec(open(f'{V}/tools/props_na.py').read()) if os.path.exists(f'{V}/tools/props_na.py') else None

def main():
    checks, na = [], []
    with open(f'{V}/properties.jsonl', 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                                'quantifier': {'over': q['over'], 'text': q['quant']}, 'why_tests_cant': q['why'],
                                'anchors': {'files': q['files'], 'mechanism': q['mech']}}) + '\n')
            h = f'{V}/harness/{q["id"]}.cpp'
            if q['na'] or not os.path.exists(h):
                na.append({'property': q['id'], 'reason': q['na'] or 'check not built'})
                continue
            src = open(h).read()
            b = '; '.join(re.findall(r'^//! bounds (.*)$', src, re.M)); o = '; '.join(re.findall(r'^//! outside (.*)$', src, re.M))
            checks.append({'property': q['id'], 'quick_cmd': f'python3 tools/check.py {q["id"]} --tier quick',
                           'thorough_cmd': f'python3 tools/check.py {q["id"]} --tier thorough',
                           'technique': 'symbolic execution of the real code (LLVM IR of /repo sources) with Z3 deciding each path and assertion',
                           'level': 'model_checking',
                           'level_note': f'Holds for every value within the bounds: {b or "all inputs of the entries"}.' + (f' Outside: {o}.' if o else '') +
                           ' Trusts clang -O1 lowering, the engine and its models of libc/libstdc++ (rt/rt.cpp), Z3; counterexamples are replayed on the natively built code, models of passing paths are replayed and compared.'})
    m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. known_findings.txt lists repaired and recorded defects.'}
    json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')
main()
