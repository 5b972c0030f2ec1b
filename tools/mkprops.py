import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
T='utg/templates.py';W='utg/words.py';D='utg/dictionary.py';L='utg/logic.py';X='utg/transformators.py';C='utg/constructors.py'
LX='utg/lexicon.py';R='utg/relations.py';DA='utg/data.py';RS='utg/restrictions.py';E='utg/exceptions.py'
p('C01','Rendering reproduces the template text around its markers exactly',
 'Rendering a template gives its source text with each marker (an opening bracket, at least one character other than a closing bracket, a closing bracket) replaced, in order and once each, by the text of its word. Every other character comes out unchanged, including percent signs (inside or outside markers), backslashes, unmatched or empty brackets and line breaks. Substituted text is inserted verbatim: nothing in it is ever read as a marker or a format directive, and two identical markers in one template are both replaced.',
 ['inputs'],'every template text (any mix of literal characters, markers and repeated markers) and every content of the substituted forms',
 'Tests render a handful of fixed sentences with at most one percent sign; nothing samples hostile literal text, identical markers or substituted texts that look like markers or format directives.',
 [T],[('Template.parse','%s:Template.parse'%T),('Template.substitute','%s:Template.substitute'%T)],['return value of Template.substitute'],
 [('template','the format string with one slot per marker',T+':Template.template')])
p('C02','A marker resolves its grammatical properties by one fixed precedence',
 'A marker\'s form is selected by starting from the properties of what its identifier names (an external variable of that name if there is one, otherwise the dictionary form with that text) and overriding them group by group with its listed dependencies in the order they are written: an external variable contributes all its properties, an explicit list contributes the listed values, later values winning. The constant properties of the identified word always override everything written in the marker. Groups nobody mentions take the first value of the group.',
 ['inputs'],'every external binding, dictionary, base form, and list and order of dependencies',
 'Tests use two or three dependency chains; precedence over 20 property groups, several externals, names that are both external and dictionary words, and words with own constant properties are not sampled.',
 [T,W],[('Substitution.get_text',T+':Substitution.get_text'),('Substitution._list_propeties',T),('Properties.clone',W)],['return value of Template.substitute'])
p('C03','Every combination of properties selects the right form of a word',
 'For every word type and every combination of property values, a word returns the form its paradigm has for exactly that combination, ignoring the groups the paradigm does not distinguish there (gender in the plural, person in the past tense, everything but the form of an infinitive, and so on). Unspecified groups count as the first value of the group and the word\'s own constant properties override the request. For the combinations a paradigm lacks (singular of a countable noun form; third person and first person singular imperatives) the result is the existing form agreeing with the request in the most groups, with groups later in the word type\'s property order weighing more on a tie and the form stored first if still equal.',
 ['inputs'],'all word types and all full and partial combinations of property values, with and without constant properties of the word',
 'Tests look up a few combinations of nouns and verbs; the full space (over 1100 full combinations and far more partial ones) is not enumerated, and the fallback is never compared with a definition.',
 [W,L,RS,DA],[('Word.form',W),('get_raw_caches',L),('get_nearest_key',L),('RESTRICTIONS',RS)],['return value of Word.form, WordForm.form, Template.substitute'],
 [('RAW_WORDS_CACHES','map from full combination to slot',DA)])
p('C04','A word that depends on a number agrees with it by the numeral rules',
 'A noun, pronoun, adjective, participle or verb whose marker depends on a number takes exactly the number, case and noun form prescribed for that numeral class (one; two to four; larger numbers ending in 2-4; ending in 1; all others; a million or billion), the requested case, and the animacy (nouns, pronouns) or gender (adjectives, participles, verbs) in force. In semantic dependency mode only the number changes (singular for class one, otherwise plural) and the case stays the requested one. Everything else requested for the marker is kept, and word types other than these are not changed by a number.',
 ['inputs'],'all pairs of dependent word type and numeral class, all cases, animacies, genders, dependency modes and numbers, and any other properties in the marker',
 'Tests cover part of the noun and adjective tables directly; the product of type, class, case, gender, animacy and mode rendered end to end, and all concrete integers, are not covered.',
 [X,T,C],[('_noun_integer',X),('_adjective_integer',X),('transform',X)],['return value of Template.substitute'])
p('C05','Every integer is written as itself and put in the right numeral class',
 'For every integer, however large or negative, the constructed number renders as its decimal notation and carries the properties of its class by absolute value: 1; 2-4; endings 10-19; other numbers ending in 1; other numbers ending in 2-4; exactly a million or a billion; all others; only the number 1 itself is grammatically singular. The result for a number is the same whatever numbers were constructed or rendered before, in any order.',
 ['inputs','histories'],'all integers and all orders of requests',
 'Tests check some dozens of numbers; boundaries of the cached range, negatives, huge numbers and request orders are not sampled.',
 [C],[('construct_integer',C),('_INTEGER_CACHE',C)],['form and properties of construct_integer(n)'],
 [('_INTEGER_CACHE','precomputed numbers 0..10000',C)])
p('C06','A preposition takes the variant required by the word it governs',
 'A preposition ending in a consonant (or a soft/hard sign) takes its second variant before a word form that begins with two consonants (or is a single consonant) when that word is one-syllable with a fluent vowel, or when the preposition is "в" or "с" and the form begins with the same letter. A preposition ending in a vowel takes its third variant if it is "о" and governs "всех", "мне", "всём", "что" or "всей", and its second before a non-iotated vowel. In all other cases it keeps the variant already in force (the one written in or asked for by the marker or selected by an earlier governed word, the first by default); capitalisation of the governed form does not matter and a form with no text selects nothing.',
 ['inputs'],'all prepositions and all governed words of any type, form and capitalisation',
 'Tests check a dozen fixed Russian phrases; initial letters, clusters, vowel patterns and capitalised or empty forms are not enumerated.',
 [X,W,DA],[('_preposition_any',X),('starts_with_consonant_cluster',W),('has_fluent_vowel',W),('number_of_syllables',W)],['return value of Template.substitute'])
p('C07','Dictionary lookup is complete and independent of insertion order',
 'After any words are added in any order, looking a text up finds a word if and only if some added word can take a form with exactly that text, and returns the form that is first by word type code, then by the word\'s list of forms, then by the fewest properties differing from the defaults (the form added first among those still equal). Adding words never makes a known text unknown nor replaces an answer with a lower-priority one, and an unknown text is reported by the dedicated error. The words listed are exactly those that own at least one answer.',
 ['inputs','histories'],'all sets of words, all insertion orders and interleavings of additions and lookups',
 'Tests add two or three words in one or two orders; homonyms across types, forms shared within one paradigm and all permutations are not explored.',
 [D,W],[('Dictionary.add_word',D),('Dictionary.get_word',D),('Word.all_forms',W)],['get_word, has_word, get_words'],
 [('_data','text to registered form',D+':Dictionary._data')])
p('C08','The lexicon returns exactly the templates whose restrictions are met',
 'For any key and restriction set, the listed templates are exactly those added under that key whose own restrictions are all contained in the given set, in the order added, duplicates kept. A random choice returns one of these and can return every one of them; a nearest choice returns only those satisfying the most of the given restrictions and can return every one of them. An unknown key and a known key without any suitable template are reported by their two distinct errors, and queries never change the lexicon.',
 ['inputs','histories'],'all sequences of additions and queries, keys and restriction sets',
 'Tests use two or three templates and one restriction set; random choice is only checked with one candidate or mocks.',
 [LX],[('Lexicon.get_templates',LX),('Lexicon._get_nearest_templates',LX)],['get_templates, get_random_template, get_random_nearest_template'])
p('C09','Serialising and restoring any object preserves its behaviour',
 'Serialising properties, a word, a marker or a template and restoring it, directly or through JSON, gives an object equal to the original that behaves identically in every lookup and rendering. The serialised data is plain JSON data and an independent snapshot: changing the original, the data or the restored object never changes another of them. Serialising the restored object gives the same data again.',
 ['inputs','histories'],'all words, properties and templates, including properties explicitly set to their defaults, capitalised and repeated markers',
 'Tests round-trip one instance of each kind without JSON and never exercise the restored objects.',
 [W,T],[('Properties.serialize/deserialize',W),('Word.serialize/deserialize',W),('Template.serialize/deserialize',T),('Substitution.serialize/deserialize',T)],['serialize, deserialize, JSON round trip'])
p('C10','The stored format and the public vocabulary never change meaning',
 'The numeric codes of word types, property groups and property values, the number and order of the form slots of each word type, and the short names of property values documented in the README keep the meaning under which existing data and templates were stored. Stored properties whose group or value code is no longer known are ignored without losing the others. A word is accepted exactly when its number of forms matches its type, otherwise the dedicated error is raised.',
 ['inputs','configurations'],'all codes, slots and short names, all stored records, and all wrong form counts',
 'Tests never compare codes, slot order or short names with a recorded reference, so any reordering that is self-consistent passes.',
 [R,RS,L,W,'README.rst'],[('relations',R),('get_caches',L),('Properties.deserialize',W),('Word.__init__',W)],['deserialize, form, templates using short names'],
 [('WORDS_CACHES','slot of every distinguished combination',DA)])
p('C11','Migrating stored words keeps every form at its grammatical meaning',
 'The migrations that convert stored words between successive form layouts leave a word with the exact number of forms of the new layout, in which every combination that also existed in the old layout holds the text it had there (for pronouns, when person stopped being distinguished, the third-person text). A combination that is new is filled with a text of an old combination that does not contradict it, whenever there is one. Everything else stored for the word, and words of other types, stay unchanged.',
 ['inputs','histories'],'all stored words of all types at every layout version, alone and through chains of migrations',
 'There is no test for any migration.',
 ['utg/migrations'],[('migrate','utg/migrations/m_0007_reduce_words_forms.py'),('migrate','utg/migrations/m_0008_lower_animiality_nearest_priority.py'),('migrate','utg/migrations/m_0009_pronoun_modernization.py'),('migrate','utg/migrations/m_0002_countable_noun_form.py'),('migrate','utg/migrations/m_0004_new_preposition_form.py'),('migrate','utg/migrations/m_0005_remove_time_participle_property.py')],['stored word data before and after migrate'])
p('C12','Lookups and rendering have no side effects and no memory',
 'Parsing other templates, looking words up, rendering, serialising and comparing never change any word, property set, external variable, template, dictionary or global table, nor anything else of the process (they write to no stream or file and leave the random generator, which only the random choices of a lexicon advance, the environment, the limits and the handlers of the interpreter as they are). Therefore the result of a rendering depends only on the template, the external variables and the dictionary\'s content at that moment, not on what was rendered, looked up or created before, nor on how often.',
 ['histories','inputs'],'all sequences of operations sharing words, properties, templates, dictionaries and numbers',
 'Each test builds fresh objects and performs one operation; interference between successive operations on shared objects is never observed.',
 [W,T,X,D,C],[('Properties.clone',W),('lazy_property','utg/utils.py'),('Substitution.get_text',T),('construct_integer',C)],['results and object snapshots before/after operations'],
 [('_lazy__*','memoised form data',W)])
p('C13','Concurrent use of shared objects gives the sequential results',
 'When several threads at once parse, render, store and choose templates, look up words, construct numbers and fill words of their own, using shared words, forms, templates, dictionaries and lexicons, each operation gives the same result, or the same error, as when executed alone. This includes the first ever use of every lazily computed or cached value and dictionary and lexicon reads while other threads add unrelated words or templates (with no text, no new key in common), none of which is lost.',
 ['schedules'],'all interleavings of threads over shared objects, including races on first use',
 'All tests are single-threaded.',
 ['utg/utils.py',C,W,D,T],[('lazy_property','utg/utils.py'),('construct_integer cache',C),('Dictionary.add_word',D)],['results of operations in each thread'],
 [('_INTEGER_CACHE','first-use initialised cache',C),('_lazy__*','first-use memoised values',W)])
p('C14','Autofill completes a paradigm from its nearest given forms',
 'Autofilling a word leaves every given form as it was and fills every missing one with the given form of the combination that agrees with it in the most groups, later groups in the word type\'s property order weighing more among equals (a group that neither combination distinguishes counts as agreeing). Filled values never serve as a source for others, so nothing is left missing if at least one form was given and repeating the operation changes nothing. A word without any form stays unchanged, and neither its type nor its properties change. However the word was used before, a filled word and the forms made from it then behave as those of a word created with the completed forms.',
 ['inputs'],'all word types and all patterns of missing forms',
 'Tests fill a few hand-picked nouns; there are 2^n patterns for paradigms of up to 148 slots.',
 [W,L],[('Word.autofill_missed_forms',W),('get_nearest_key',L)],['word forms after autofill','renderings after autofill of words used before'])
p('C15','Every failure is the documented error for its cause and is clean',
 'Parsing or rendering with string input fails only with the library\'s own errors: an unknown property name, an empty marker identifier, an unknown word and a missing external variable each give their own error carrying the offending text, and whatever has none of these problems succeeds. A word left with unspecified (empty) forms renders as empty text rather than failing. A failed operation leaves the template, dictionary and words usable and unchanged.',
 ['inputs','fault_sequences'],'all template texts, external bindings and dictionaries, including malformed ones, and sequences of failed and successful operations',
 'Tests trigger each error once with one fixed input; no test shows that nothing else fails or that objects survive failures.',
 [T,E,D,W],[('Substitution.parse',T),('Substitution.parse_properties',T),('Substitution._list_propeties',T),('Dictionary.get_word',D)],['exceptions raised by parse, substitute, get_word'])
p('C16','Marker syntax is insensitive to spacing and letter case',
 'Surrounding whitespace around a marker\'s identifier, around each dependency and around each property name inside a list, and the letter case of any of them, do not change the result, except that a capital first letter of the identifier capitalises the text. Empty dependencies and empty list items are ignored, properties may be split over several dependencies or lists, and a dependency named like an external variable known at parsing denotes that variable even if it is also a property name.',
 ['inputs'],'all markers and all spellings of them that differ only in spacing, letter case, empty items or grouping of the property names',
 'Tests use one canonical spelling, with a few exceptions.',
 [T],[('Substitution.parse',T),('Substitution.parse_properties',T)],['results of equivalent spellings compared'])
p('C17','A template means what its last successful parse said',
 'A template object can be parsed any number of times and afterwards behaves exactly like a fresh template parsed once from the last text. If parsing fails, the template keeps its previous text and behaviour. Equal texts parsed with the same external names give equal templates.',
 ['histories'],'all sequences of successful and failing parses of one template object, interleaved with renderings and serialisation',
 'Every test parses a template object once.',
 [T],[('Template.parse',T),('Template.__eq__',T)],['substitute, serialize, equality after parse histories'],
 [('_substitutions','markers of the template',T)])
p('C18','Property sets, words, forms and templates obey the laws of values',
 'Equality of property sets, words, word forms, markers and templates is reflexive, symmetric and transitive, agrees with inequality, depends exactly on content (types, form texts, the set properties and their values), and comparing with anything else is simply unequal. Equal hashable objects have equal hashes, so they work as set members and dictionary keys. Combining property sets gives a new set with the later values winning and leaves the operands unchanged, and the printed form of a property set lists the short names of exactly its values, in the fixed order of groups.',
 ['inputs'],'all pairs and triples of property sets, words, forms and templates, and foreign objects',
 'Tests compare a few objects; no laws, hashes or foreign comparisons are checked and printing is never executed.',
 [W,T],[('Properties.__eq__/__hash__/clone',W),('Word.__eq__/__hash__',W),('WordForm.__eq__/__hash__',W),('Template.__eq__',T)],['==, !=, hash, str, clone'])
p('C19','Capitalised markers capitalise exactly the first letter',
 'A marker whose identifier begins with a capital letter, or that asks for upper case explicitly, renders exactly the text it would render otherwise with the first character upper-cased and all others untouched; every other marker renders the form as it is stored. A capital in the marker wins over any letter case property in its dependencies, and it never affects which form is chosen, nor other markers or words depending on it.',
 ['inputs'],'all markers, words, stored forms (any characters, including empty and one-character forms) and dependencies',
 'Tests capitalise two or three plain words.',
 [T,W],[('Substitution.parse',T),('WordForm.get_form',W)],['pairs of renderings compared'])
p('C20','Results do not depend on process, hash seed or creation order',
 'The same program gives the same renderings, dictionary answers, stored data, slot layouts and errors in every process, whatever the hash seed, the order in which modules are imported or the order in which unrelated objects are created.',
 ['configurations','histories'],'all hash seeds, import orders and object creation orders',
 'Tests run in one process with one seed and compare within it.',
 [L,DA,W,D,R],[('get_property_relations',L),('get_caches',L),('Properties.__hash__',W)],['digests of complete behaviour across processes'])
p('C21','A dictionary form written in a template is recognised as itself',
 'If a text is in the dictionary, a marker with this text alone renders exactly that text, and with an explicit property list it renders the form of the same word with only the listed groups changed. Using a word or a word form as an external variable likewise renders that form\'s own text when the marker adds nothing.',
 ['inputs'],'all words of all types, all their slots and all added property values',
 'Tests check a few forms of a few words; homonymous slots and each slot of each word type are not enumerated.',
 [T,D,W],[('Word.all_forms',W),('Substitution.get_text',T),('WordForm',W)],['return value of Template.substitute'])
p('C22','The report of missing words predicts exactly which renderings fail',
 'For any template, external variables and dictionary, the report of undictionaried words lists, in order and once per occurrence, exactly the identifiers that are neither external variables nor dictionary texts. A rendering fails for an unknown word if and only if this list is not empty (and no other marker before it fails), and adding words that contain the listed texts makes the list empty. Asking for the report changes nothing.',
 ['inputs','histories'],'all templates, external bindings and dictionaries',
 'One test checks one template with one missing word.',
 [T,D],[('Template.get_undictionaried_words',T),('Dictionary.has_word',D)],['get_undictionaried_words compared with substitute'])
p('C23','Work and memory stay in proportion to what an operation is given',
 'Parsing, storing, restoring, comparing and rendering a template take work proportional to that template (its text, markers and dependencies). Looking a text up and adding a word take work that does not depend on how many other words the dictionary holds, a lexicon query depends only on the templates under its key, and listing the words of a dictionary is proportional to them. Nothing gets slower with the number of operations done before, and nothing made by a finished operation stays in memory unless the caller keeps it or stored it (tables and per-object values of bounded size excepted).',
 ['inputs','histories'],'all sizes of templates, dictionaries, lexicons and sets of variables, and all numbers of operations done before',
 'Tests use tiny dictionaries and templates once each; neither the amount of work nor what stays in memory is observed.',
 [T,D,W,LX,C,L],[('Template.parse',T),('Template.substitute',T),('Dictionary.add_word',D),('Dictionary.get_word',D),('Lexicon.get_templates',LX),('construct_integer',C)],
 ['events executed by each operation, living objects and allocated memory after it'],[('_INTEGER_CACHE','numbers 0..10000 made once',C),('_data','words by text',D)])
p('C24','A rendering depends only on what its markers name',
 'The outcome of rendering a template (its text, or its error) and its report of missing words are determined by the template text, the external variables its markers name, and the dictionary\'s answers for the words they name. Declaring or passing further variables, further words in the dictionary that do not have the named texts, and how many these are, their order and the containers they are given in make no difference. Templates written one after another render to their texts one after another, and a marker gives the same text wherever it stands. Except for a preposition with a governing word (chosen by their texts), neither the forms of a used word that are not selected nor the texts of governing words make a difference.',
 ['inputs'],'all templates, and all further variables, words, surrounding text and unselected forms',
 'Tests render fixed templates in one small surrounding each; that nothing outside the named things has influence is a statement about pairs of executions.',
 [T,D,W,X],[('Template.substitute',T),('Substitution.get_text',T),('Dictionary.get_word',D),('transform',X)],['substitute and get_undictionaried_words in different surroundings'])
p('C25','An operation that is abandoned half-way spoils nothing',
 'When an operation is abandoned at any point because an exception that is not its own arrives (an interrupt, a time limit, no memory, an exhausted stack), it lets that exception through, and everything it worked on or shares with others stays usable. Repeating an operation that reads, parses or adds gives the result it would have given in the first place, and every other operation gives the results it would give if the abandoned one had never begun: operations that read change nothing, an abandoned parse can be repeated, an abandoned addition leaves all texts and templates added before it known and is completed by repeating it, and an abandoned autofill keeps the given forms and gives each missing form either the text it should get or none. This includes the first use of every table and value that is kept for later.',
 ['inputs','histories','crash_points'],'all operations, all points (instructions) at which they can be abandoned, and all operations afterwards',
 'Tests never abandon an operation: every one runs to its end or to its own error.',
 [T,D,W,LX,C,L],[('Template.parse',T),('Template.substitute',T),('Dictionary.add_word',D),('Lexicon.add_template',LX),('Word.autofill_missed_forms',W),('construct_integer',C)],
 ['results of operations repeated after exceptions injected into the library'],[('_INTEGER_CACHE','numbers 0..10000 made once',C),('_data','words by text',D),('_substitutions','markers of a template',T)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
