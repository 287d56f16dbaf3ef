"""Planted bugs (see seed.py)"""
PRELUDE = '''"""demonstration, see meta.json"""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.getcwd())
ROOT = os.path.realpath(tempfile.mkdtemp())
import atexit
atexit.register(shutil.rmtree, ROOT, True)

from oelint_parser.cls_stash import Stash
from oelint_parser.constants import CONSTANTS, Constants
from oelint_parser.cls_item import Item
from oelint_parser.rpl_regex import RegexRpl


def mk(files):
    for f, t in files.items():
        p = os.path.join(ROOT, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', newline='') as o:
            o.write(t)


def P(f):
    return os.path.join(ROOT, f)


def stash(files, order=None, fin=True, **k):
    mk(files)
    s = Stash(quiet=True, **k)
    for f in order or list(files):
        s.AddFile(P(f))
    if fin:
        s.Finalize()
    return s


def same(got, exp):
    if got != exp:
        print('got', got, 'expected', exp)
        sys.exit(1)


'''

ST, PA, IT, IN, CO, RX = 'cls_stash.py', 'parser.py', 'cls_item.py', 'inlinerep.py', 'constants.py', 'rpl_regex.py'
SEEDS = []


def B(id_, prop, edits, needs, breaks, demo):
    SEEDS.append({'id': id_, 'property': prop, 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo})


B('c01-nested-peek', 'C01', [(PA, """                        _iter, lineOffset, num, nextbuf, negative=negative)
                    num += length
""", """                        _iter, lineOffset, num, nextbuf, negative=negative)
                    num += length if nextbuf else 1
""")], 'a def block or comment directly followed by a statement of several lines (a function)', 'line numbers after the function are too low', '''
s = stash({'a_1.0.bb': '# c\\ndo_a () {\\n    a\\n    b\\n}\\nA = "1"\\n'})
same([x.InFileLine for x in s.GetItemsFor(classifier='Variable')], [6])
''')

B('c01-other-linebreaks', 'C01', [(PA, "return (res, next_, res.count('\\n'))", "return (res, next_, len(res.splitlines()))")],
  'a form feed, vertical tab or unicode line separator in a line', 'line numbers of everything that follows are too high', '''
s = stash({'a_1.0.bb': 'A = "1"\\n# page\\x0cbreak\\nB = "2"\\n'})
same([(x.VarName, x.InFileLine) for x in s.GetItemsFor(classifier='Variable')], [('A', 1), ('B', 3)])
''')

B('c05-plus-in-name', 'C05', [(PA, r"(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>", r"(?P<func>[\w\.\-\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>")], 'a function whose name or override contains a plus', 'the function is not recognised', '''
s = stash({'a_1.0.bb': 'pkg_postinst:libsigc++ () {\\n    :\\n}\\n'})
same([x.FuncName for x in s.GetItemsFor(classifier='Function')], ['pkg_postinst'])
''')

B('c06-empty-false', 'C06', [(IN, """    m = RegexRpl.match(__oe_utils_version_less_or_equal_regex__, _in)
    if m:
        if negative_clause:
            return m.group('falseval').strip("\\"'")
""", """    m = RegexRpl.match(__oe_utils_version_less_or_equal_regex__, _in)
    if m:
        if negative_clause and m.group('falseval').strip("\\"'"):
            return m.group('falseval').strip("\\"'")
""")], 'negative evaluation with an empty false argument', 'the true argument is returned', '''
s = stash({'a_1.0.bb': 'A = "${@oe.utils.version_less_or_equal(\\'A\\', \\'2\\', \\'yes\\', \\'\\', d)}"\\n'}, negative_inline=True)
same([x.VarValueStripped for x in s.GetItemsFor(classifier='Variable')], [''])
''')

B('c09-default-of-empty', 'C09', [(ST, 'elif varop == " ?= " and _exp[name] is None:', 'elif varop == " ?= " and not _exp[name]:')], 'a variable assigned an empty value, followed by a default assignment', 'the default replaces the empty value', '''
s = stash({'a_1.0.bb': 'A = ""\\nA ?= "x"\\n'})
same(s.ExpandVar(P('a_1.0.bb'))['A'], [])
''')

B('c10-unset-is-empty', 'C10', [(ST, "                    del _exp[item.VarName]\n", "                    _exp[item.VarName] = ''\n")], 'a default assignment after an unset', 'the default is not taken', '''
s = stash({'a_1.0.bb': 'A = "1"\\nunset A\\nA ?= "x"\\n'})
same(s.ExpandVar(P('a_1.0.bb')).get('A'), ['x'])
''')

B('c11-base-cycle', 'C11', [(ST, """                elif m.group(1) in baseset:
                    seen[m.group(1)] = ""
                    _rpl = self.ExpandTerm(
""", """                elif m.group(1) in baseset:
                    _rpl = self.ExpandTerm(
""")], 'two variables of the configured base set that refer to each other', 'expanding one of them recurses endlessly', '''
CONSTANTS.OverrideConstants({'sets': {'base': {'XA': 'a${XB}', 'XB': 'b${XA}'}}})
s = stash({'a_1.0.bb': 'A = "1"\\n'})
same(s.ExpandTerm(P('a_1.0.bb'), '${XA}'), 'ab')
''')

B('c12-last-attribute', 'C12', [(ST, "                res |= name in attr_ and (not attvalue or any(", "                res = name in attr_ and (not attvalue or any(")], 'a query with several attributes', 'only the last attribute counts', '''
s = stash({'a_1.0.bb': 'A = "x"\\nB = "A"\\n'})
same(len(s.GetItemsFor(classifier='Variable', attribute=['VarName', 'VarValueStripped'], attributeValue='A')), 2)
''')

B('c13-stale-links', 'C13', [(ST, "        self.__is_linked_to.cache_clear()\n", "")], 'a query for a file before another file is linked to it', 'items of files linked later are never part of the result', '''
mk({'a_1.0.bb': 'A = "1"\\n', 'a_%.bbappend': 'B = "1"\\n', 'b_%.bbappend': 'C = "1"\\n'})
s = Stash(quiet=True)
s.AddFile(P('a_%.bbappend'))
same(len(s.GetItemsFor(filename=P('a_1.0.bb'))), 0)
s.AddFile(P('a_1.0.bb'))
same(len(s.GetItemsFor(filename=P('a_1.0.bb'))), 2)
''')

B('c13-stale-resources', 'C13', [(ST, "        self.GetValidNamedResources.cache_clear()\n", "")], 'asking for the named resources before adding a bbappend', 'resources added by the bbappend are missing', '''
mk({'a_1.0.bb': 'SRC_URI = "file://a;name=x"\\n', 'a_%.bbappend': 'SRC_URI += "file://b;name=y"\\n'})
s = Stash(quiet=True)
s.AddFile(P('a_1.0.bb'))
s.GetValidNamedResources(P('a_1.0.bb'))
s.AddFile(P('a_%.bbappend'))
same(sorted(s.GetValidNamedResources(P('a_1.0.bb'))), ['a', 'x', 'y'])
''')

B('c16-third-part', 'C16', [(ST, "return [*_pv, None][0]", "return [None, *_pv][-1]")], 'a file name with two underscores', 'the version is the last part instead of the second', '''
s = Stash(quiet=True)
same(s.GuessRecipeVersion('/x/a_1.0_2.bb'), '1.0')
''')

B('c17-mirror-start', 'C17', [(ST, "            _in = _in.replace(k, v)\n", "            if _in.startswith(k):\n                _in = _in.replace(k, v)\n")], 'a known mirror that is not at the start of the URI', 'the mirror is not replaced', '''
k, v = list(CONSTANTS.MirrorsKnown.items())[0]
s = Stash(quiet=True)
same(s.GetScrComponents('npm://x;registry=' + k)['options'], {'registry': v})
''')

B('c18-two-dashes', 'C18', [(IT, 'tmp = "-" + "-".join(i.split("-")[1:])', 'tmp = "-" + i.split("-")[1]')], 'an override with two dashes', 'the text after the second dash is lost', '''
s = stash({'a_1.0.bb': 'FILES:${PN}-ab-cd = "1"\\n'})
same([x.VarNameComplete for x in s.GetItemsFor(classifier='Variable')], ['FILES:${PN}-ab-cd'])
''')

B('c18-cross-machine', 'C18', [(IT, """        for x in self.SubItems:
            if x not in ["append", "prepend", "class-native", "class-nativesdk", "class-cross", "class-target", "remove", "machine"]:
                return x
        return ""

    def GetClassOverride(self) -> str:
        \"\"\"Get class specific entries in variable
""", """        for x in self.SubItems:
            if x not in ["append", "prepend", "class-native", "class-nativesdk", "class-target", "remove", "machine"]:
                return x
        return ""

    def GetClassOverride(self) -> str:
        \"\"\"Get class specific entries in variable
""")], 'a variable with a class-cross override', 'class-cross is reported as machine', '''
s = stash({'a_1.0.bb': 'A:class-cross = "1"\\n'})
same([x.GetMachineEntry() for x in s.GetItemsFor(classifier='Variable')], [''])
''')

B('c19-greedy-version', 'C19', [(IT, r'r"\s*\(.*?\)"', r'r"\s*\(.*\)"')], 'a list with two versioned items', 'the item between the versions is lost', '''
s = stash({'a_1.0.bb': 'RDEPENDS = "a (>= 1) b (< 2) c"\\n'})
same([x.get_items(versioned=True) for x in s.GetItemsFor(classifier='Variable')], [['a', 'b', 'c']])
''')

B('c20-empty-override', 'C20', [(CO, """                elif isinstance(b[k], dict):
                    dict_merge(a[k], b[k])
                else:
                    a[k] = v
""", """                elif isinstance(b[k], dict) and b[k]:
                    dict_merge(a[k], b[k])
                else:
                    a[k] = v
""")], 'overriding with an empty dictionary', 'all entries below are dropped', '''
c = Constants({'a': {'b': ['c']}})
c.OverrideConstants({'a': {}})
same(c.GetByPath('a/b'), ['c'])
''')

B('c21-outer-layer', 'C21', [(ST, """                if os.path.isfile(os.path.join(_curdir, name)):
                    return os.path.join(_curdir, name)
                else:
                    break
""", """                if os.path.isfile(os.path.join(_curdir, name)):
                    return os.path.join(_curdir, name)
""")], 'a layer inside of another layer', 'files of the outer layer are found', '''
mk({'conf/layer.conf': '', 'x.inc': '', 'l/conf/layer.conf': '', 'l/r/a_1.0.bb': ''})
same(Stash(quiet=True).FindLocalOrLayer('x.inc', P('l/r')), '')
''')

B('c22-class-locations', 'C22', [(PA, """                        for location in ["classes", "classes-recipe", "classes-global"]:""", """                        for location in {"classes", "classes-recipe", "classes-global"}:""")], 'a class of the same name in two class directories, and a certain hash seed', 'which one is used depends on the process', '''
if len(sys.argv) > 1:
    s = stash({'conf/layer.conf': '', 'classes/c.bbclass': 'A = "1"\\n', 'classes-recipe/c.bbclass': 'A = "2"\\n', 'classes-global/c.bbclass': 'A = "3"\\n', 'a_1.0.bb': 'inherit c\\n'}, ['a_1.0.bb'])
    print([x.VarValueStripped for x in s.GetItemsFor(classifier='Variable')])
    sys.exit(0)
out = {subprocess.run([sys.executable, os.path.abspath(__file__), 'x'], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True, text=True).stdout for i in range(12)}
same(out, {"['1']\\n"})
''')

B('c23-sub-default', 'C23', [(RX, "timeout: int = 5, default: str = '', **kwargs) -> str:", "timeout: int = 5, default: str = None, **kwargs) -> str:")], 'a timeout while removing versions of a list', 'an exception is raised', '''
import regex
s = stash({'a_1.0.bb': 'RDEPENDS = "a (>= 1)"\\n'})
i = s.GetItemsFor(classifier='Variable')[0]


def slow(*a, **k):
    raise TimeoutError()


regex.regex.sub = regex.sub = slow
i.get_items(versioned=True)
''')

B('c24-negative-insert', 'C24', [(ST, "            self.data.insert(index, item)", "            self.data.insert(max(index, 0), item)")], 'inserting at a negative index', 'the item is inserted at the start', '''
s = stash({'a_1.0.bb': 'A = "1"\\nB = "1"\\nC = "1"\\n'})
x = s.GetItemsFor(classifier='Variable')
y = list(x)
x.insert(-1, x[0])
y.insert(-1, y[0])
same([i.VarName for i in x], [i.VarName for i in y])
''')

B('c26-last-inherit', 'C26', [(ST, "            res |= any(True for x in item.get_items()\n", "            res = any(True for x in item.get_items()\n")], 'an image class inherited before another class in an own statement', 'the recipe is no image', '''
s = stash({'a_1.0.bb': 'inherit image\\ninherit foo\\n'})
same(s.IsImage(P('a_1.0.bb')), True)
''')

B('c27-options', 'C27', [(ST, "f'{self.__new_style_override_syntax}:{self.__negative_inline}'", "f'{self.__new_style_override_syntax ^ self.__negative_inline}'")], 'both options set, or none', 'stashes with different options have the same fingerprint', '''
mk({'a_1.0.bb': 'A = "1"\\n'})
same(Stash(quiet=True).FingerPrint == Stash(quiet=True, new_style_override_syntax=True, negative_inline=True).FingerPrint, False)
''')

B('c10-unset-in-include', 'C10', [(ST, """                                 classifier=Unset.CLASSIFIER)

        if filename is None:""", """                                 classifier=Unset.CLASSIFIER,
                                 nolink=True)

        if filename is None:""")], 'an unset in a file included by the recipe', 'the unset is ignored', '''
s = stash({'a_1.0.bb': 'A = "1"\\nrequire i.inc\\n', 'i.inc': 'unset A\\n'}, ['a_1.0.bb'])
same(s.ExpandVar(P('a_1.0.bb')).get('A'), None)
''')

B('c12-set-of-values', 'C12', [(ST, """        if not isinstance(attributeValue, (list, set, tuple)):""", """        if not isinstance(attributeValue, (list, tuple)):""")], 'a query with a set of values', 'nothing is found', '''
s = stash({'a_1.0.bb': 'A = "x"\\nB = "A"\\n'})
same(len(s.GetItemsFor(classifier='Variable', attribute='VarName', attributeValue={'A', 'B'})), 2)
''')

B('c08-nested-line', 'C08', [(PA, """            'line': line['line'] + includeOffset,
""", """            'line': line['line'] + (includeOffset if not lineOffset else 0),
""")], 'an include that itself includes a file, and has further statements', 'they are sorted before the items of the nested include', '''
s = stash({'a_1.0.bb': 'require i.inc\\nZ = "1"\\n', 'i.inc': 'require j.inc\\nB = "1"\\n', 'j.inc': 'C = "1"\\nD = "1"\\nE = "1"\\n'}, ['a_1.0.bb'])
same([x.VarName for x in s.GetItemsFor(filename=P('a_1.0.bb'), classifier='Variable')], ['C', 'D', 'E', 'B', 'Z'])
''')

B('c08-shift-once', 'C08', [(PA, "'infileline': line['line'] - lineOffset,", "'infileline': line['line'] - lineOffset if not includeOffset else line['line'] - lineOffset + 1,")], 'a statement after an include', 'wrong line in the file', '''
s = stash({'a_1.0.bb': 'require i.inc\\nZ = "1"\\n', 'i.inc': 'B = "1"\\nC = "1"\\n'}, ['a_1.0.bb'])
same([x.InFileLine for x in s.GetItemsFor(classifier='Variable', attribute='VarName', attributeValue='Z')], [2])
''')

B('c14-first-link', 'C14', [(ST, "            for item in self.__map[k][:]:\n", "            for item in self.__map[k][:2]:\n")], 'a file with three or more inclusions, the third of which includes another file', 'the files included by the third one are not linked', '''
s = stash({'a_1.0.bb': 'require a.inc\\nrequire b.inc\\nrequire c.inc\\n', 'a.inc': 'A = "1"\\n', 'b.inc': 'A = "1"\\n', 'c.inc': 'require d.inc\\n', 'd.inc': 'D = "1"\\n'}, ['a_1.0.bb'])
same(len(s.GetItemsFor(filename=P('a_1.0.bb'), attribute='VarName', attributeValue='D')), 1)
''')

B('c14-inherit-global', 'C14', [(PA, """                        for location in ["classes", "classes-global"]:""", """                        for location in ["classes"]:""")], 'INHERIT of a class in classes-global', 'the class is not linked', '''
s = stash({'conf/layer.conf': '', 'a_1.0.bb': 'INHERIT += "c"\\n', 'classes-global/c.bbclass': 'A = "1"\\n'}, ['a_1.0.bb'])
same(len(s.GetItemsFor(filename=P('a_1.0.bb'), classifier='Variable')), 1)
''')

B('c25-stale-conf', 'C25', [(ST, "        self.GetConfFiles.cache_clear()\n", "")], 'asking for configuration files before and after removing items', 'files without items are still reported', '''
s = stash({'x.conf': 'A = "1"\\n'})
same(s.GetConfFiles(), [P('x.conf')])
s.Remove(s.GetItemsFor())
same(s.GetConfFiles(), [])
''')

B('c27-no-name', 'C27', [(ST, "            self.__fingerprint.update(str(item).encode())", "            self.__fingerprint.update(item.RealRaw.encode())")], 'files of different names, or text moved between statements', 'the fingerprint is the same', '''
mk({'a_1.0.bb': 'A = "1"\\n', 'b_1.0.bb': 'A = "1"\\n'})
r = []
for f in ('a_1.0.bb', 'b_1.0.bb'):
    s = Stash(quiet=True)
    s.AddFile(P(f))
    r.append(s.FingerPrint)
same(r[0] == r[1], False)
''')

B('c28-back-links', 'C28', [(ST, "                self.__map[k] += self.__map[item]\n", "                self.__map[k] += self.__map[item]\n                if item.endswith('.bbclass'):\n                    self.__map[item].append(k)\n")], 'two recipes inheriting the same class', 'the second recipe has the items of the first', '''
s = stash({'conf/layer.conf': '', 'a_1.0.bb': 'A = "1"\\ninherit c\\n', 'b_1.0.bb': 'inherit c\\n', 'classes/c.bbclass': 'C = "1"\\n'}, ['a_1.0.bb', 'b_1.0.bb'])
same(sorted(x.VarName for x in s.GetItemsFor(filename=P('b_1.0.bb'), classifier='Variable')), ['C'])
''')

B('c06-feature-true', 'C06', [(IN, """    m = RegexRpl.match(__oe_utils_any_distro_features_regex__, _in)
    if m:
        trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
""", """    m = RegexRpl.match(__oe_utils_any_distro_features_regex__, _in)
    if m:
        trueval = (m.groupdict().get('trueval') or '1').strip("\\"'") or '1'
""")], 'an explicitly empty true argument of any_distro_features', '1 is returned instead of nothing', '''
s = stash({'a_1.0.bb': 'A = "${@oe.utils.any_distro_features(d, \\'x\\', \\'\\', \\'no\\')}"\\n'})
same([x.VarValueStripped for x in s.GetItemsFor(classifier='Variable')], [''])
''')

B('c16-native-prefix', 'C16', [(ST, 'r"^(nativesdk-)*(.+)(-native)*(-cross)*"', 'r"^(nativesdk-?)*(.+)(-native)*(-cross)*"')], 'a recipe name that starts with nativesdk without a dash', 'the start of the name is cut off', '''
same(Stash(quiet=True).GuessBaseRecipeName('/x/nativesdkfoo_1.0.bb'), 'nativesdkfoo')
''')

B('c20-remove-text', 'C20', [(CO, "                    a[k] = [x for x in a[k] if x not in v]\n", "                    a[k] = [x for x in a[k] if x not in v] or a[k]\n")], 'removing the last entries of a list', 'nothing is removed', '''
c = Constants({'a': ['b']})
c.RemoveConstants({'a': ['b']})
same(c.GetByPath('a'), [])
''')


B('c02-lone-delimiter', 'C02', [(IT, """        chunks = name.split(self.__OverrideDelimiter)
        _suffix = []
        _var = [chunks[0]]
        for i in chunks[1:]:
""", """        chunks = [x for x in name.split(self.__OverrideDelimiter) if x]
        _suffix = []
        _var = [chunks[0]]
        for i in chunks[1:]:
""")], 'a variable that is named by delimiters only', 'IndexError while parsing', '''
same([x.VarValueStripped for x in stash({'a_1.0.bb': '_ = "1"\\n'}).GetItemsFor(classifier='Variable')], ['1'])
''')

B('c05-comment-braces', 'C05', [(PA, """                scope_level += line.count('{')
                scope_level -= line.count('}')
""", """                if '#' not in line:
                    scope_level += line.count('{')
                scope_level -= line.count('}')
""")], 'a line of a function body with a hash and braces', 'the function ends at the closing brace of that line', '''
s = stash({'a_1.0.bb': 'do_a() {\\n    b=${a#b}\\n    c\\n}\\nA = "1"\\n'})
same([x.CLASSIFIER for x in s.GetItemsFor()], ['Function', 'Variable'])
same([x.FuncBodyRaw for x in s.GetItemsFor(classifier='Function')], ['\\nb=${a#b}\\nc\\n'])
''')

B('c07-same-block-twice', 'C07', [(PA, """        inline_blocks.append((repl, _repl))
""", """        if (repl, _repl) not in inline_blocks:
            inline_blocks.append((repl, _repl))
""")], 'the same inline code twice in a value', 'the item lists it only once and the second occurrence stays a placeholder', '''
s = stash({'a_1.0.bb': 'A = "${@f(1)} b ${@f(1)}"\\n'})
same([len(x.InlineBlocks) for x in s.GetItemsFor(classifier='Variable')], [2])
same(s.ExpandVar(filename=P('a_1.0.bb'))['A'], ['${@f(1)}', 'b', '${@f(1)}'])
''')

B('c11-seen-first', 'C11', [(ST, """                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
                    seen[m.group(1)] = _rpl
""", """                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
                    seen[m.group(1)] = cnt
""")], 'a variable referred to twice whose value has references', 'the second reference is only expanded one level', '''
s = stash({'a_1.0.bb': 'A = "${B}"\\nB = "b"\\nC = "${A}"\\n'})
same(s.ExpandTerm(P('a_1.0.bb'), '${A} ${C}'), 'b b')
''')

B('c15-lone-shared', 'C15', [(ST, """            if k.endswith('.bb'):
                __linked_appends.update(
                    x for x in v if x.endswith('.bbappend'))
""", """            if k.endswith('.bb'):
                __linked_appends.update(
                    [x for x in v if x.endswith('.bbappend')][:1])
""")], 'two bbappends of one recipe', 'the second is reported as without recipe', '''
s = stash({'a_1.0.bb': 'A = "1"\\n', 'a_%.bbappend': 'A = "2"\\n', 'x/a_1.0.bbappend': 'A = "3"\\n'}, fin=False)
same(s.GetLoneAppends(), [])
''')

B('c21-nested-layer', 'C21', [(ST, """                if os.path.isfile(os.path.join(_curdir, name)):
                    return os.path.join(_curdir, name)
                else:
                    break
""", """                if os.path.isfile(os.path.join(_curdir, name)):
                    return os.path.join(_curdir, name)
                elif not os.path.exists(os.path.join(_curdir, name)):
                    break
""")], 'a directory of the looked-up name in a layer inside another layer with such a file', 'the file of the outer layer is returned', '''
mk({'conf/layer.conf': '', 'x.inc': '', 'in/conf/layer.conf': '', 'in/x.inc/y': '', 'in/r/a_1.0.bb': ''})
same(Stash(quiet=True).FindLocalOrLayer('x.inc', P('in/r')), '')
''')

B('c29-dotted-names', 'C29', [(ST, """                _fn, _ = os.path.splitext(os.path.basename(conf))
                CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
""", """                _fn = os.path.basename(conf).replace('.conf', '')
                CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
""")], 'a machine whose name contains .conf before the extension', 'the machine is registered under a shortened name', '''
s = stash({'conf/layer.conf': '', 'conf/machine/m.config-a.conf': '', 'a_1.0.bb': 'A = "1"\\n'})
same('m.config-a' in CONSTANTS.MachinesKnown, True)
''')

B('c30-links-of-contributor', 'C30', [(ST, """                                for x in self.GetItemsFor(filename=item.Origin)})
""", """                                for x in self.GetItemsFor(filename=item.Origin, nolink=item.IsFromAppend())})
""")], 'a bbappend contributing to SRC_URI that includes a file of another directory', 'the files next to the included one are not found', '''
s = stash({'r/a_1.0.bb': 'A = "1"\\n', 'b/a_1.0.bbappend': 'SRC_URI += "file://x"\\nrequire ../c/x.inc\\n', 'c/x.inc': 'A = "1"\\n', 'c/files/x': ''}, ['r/a_1.0.bb', 'b/a_1.0.bbappend'])
same(s.GetFiles(P('r/a_1.0.bb'), 'x'), [P('c/files/x')])
''')

B('c31-leak', 'C31', [(PA, """        override_syntax_new |= res[-1].IsNewStyleOverrideSyntax
""", """        override_syntax_new |= res[-1].IsNewStyleOverrideSyntax or any(x.IsNewStyleOverrideSyntax for x in stash.GetItemsFor(filename=_file) if x.IsFromClass)
""")], 'a recipe in the old syntax that inherits a class in the new one', 'the names of the recipe are split at colons', '''
s = stash({'conf/layer.conf': '', 'a_1.0.bb': 'inherit c\\nA_append = "1"\\n', 'classes/c.bbclass': 'C:append = "1"\\n'}, ['a_1.0.bb'])
same([x.VarName for x in s.GetItemsFor(filename=P('a_1.0.bb'), classifier='Variable', nolink=True)], ['A'])
''')

B('c27-placeholder', 'C27', [(IT, """        return "{name} -- {attr}\\n".format(name=self.__class__.__name__, attr=attr)
""", """        attr.pop('InlineBlocks', None)
        attr.pop('RealRaw', None)
        return "{name} -- {attr}\\n".format(name=self.__class__.__name__, attr=attr)
""")], 'files that differ in inline code only', 'the fingerprints are equal', '''
r = []
for v in 'ab':
    r.append(stash({'a_1.0.bb': 'A = "${@f(%s)}"\\n' % v}).FingerPrint)
same(r[0] == r[1], False)
''')

B('c24-extend-self', 'C24', [(ST, """                self.data.extend(other.data)
""", """                self.data = other.data if not self.data else self.data + other.data
""")], 'an empty list extended by a query result and changed afterwards', 'the query result changes as well', '''
s = stash({'a_1.0.bb': 'A = "1"\\nB = "2"\\n'})
a = s.GetItemsFor(classifier='Export')
b = s.GetItemsFor(classifier='Variable')
a.extend(b)
a.remove(a[0])
same(len(b), 2)
''')

B('c23-split-none', 'C23', [(RX, """            return default or []
""", """            return [string] if default is None else default
""")], 'a split that runs into its time limit', 'the whole text is returned instead of the empty default', '''
def late(*a, **k):
    raise TimeoutError()
from oelint_parser import rpl_regex
old = rpl_regex.regex.split
rpl_regex.regex.split = late
try:
    same(RegexRpl.split('a', 'bab'), [])
finally:
    rpl_regex.regex.split = old
''')

B('c26-suffix-words', 'C26', [(ST, """        return any(x for x in _inherits if "packagegroup" in x.get_items())
""", """        return any(x for x in _inherits if "packagegroup" in x.Class.split(" "))
""")], 'inherited classes separated by a tab or a continued line', 'the recipe is no package group', '''
s = stash({'a_1.0.bb': 'inherit foo\\tpackagegroup\\n'})
same(s.IsPackageGroup(P('a_1.0.bb')), True)
''')

B('c12-line-attribute', 'C12', [(ST, """                res |= name in attr_ and (not attvalue or any(
                    x == attr_.get(name) for x in attvalue))
""", """                res |= bool(attr_.get(name)) and (not attvalue or any(
                    x == attr_.get(name) for x in attvalue))
""")], 'a query for an attribute that is there with an empty value', 'the item is not returned', '''
s = stash({'a_1.0.bb': 'A = "1"\\nA:b = "1"\\n'})
same(len(s.GetItemsFor(attribute='SubItem')), 2)
''')

B('c04-flag-value', 'C04', [(IT, """        return self.__value.strip('"')

    def get_items(self) -> Tuple[str, str, str, str]:
""", """        return self.__value.strip().strip('"').strip()

    def get_items(self) -> Tuple[str, str, str, str]:
""")], 'a flag value with blanks next to the quotes', 'the blanks get lost', '''
s = stash({'a_1.0.bb': 'do_a[x] = " b "\\n'})
same([x.ValueStripped for x in s.GetItemsFor(classifier='FlagAssignment')], [' b '])
''')

B('c09-nolink', 'C09', [(ST, """                                attributeValue=attributeValue,
                                nolink=nolink)

        _res += self""", """                                attributeValue=attributeValue)

        _res += self""")], 'variables expanded without the linked files', 'the assignments of linked files count as well', '''
s = stash({'a_1.0.bb': 'require x.inc\\nA = "1"\\n', 'x.inc': 'B = "2"\\n'}, ['a_1.0.bb'])
same('B' in s.ExpandVar(P('a_1.0.bb'), nolink=True), False)
''')

B('c16-empty-version', 'C16', [(ST, """        return [*_pv, None][0]
""", """        return next(filter(None, _pv), None)
""")], 'a file name with two underscores in a row', 'the version is the third part', '''
s = Stash(quiet=True)
same(s.GuessRecipeVersion('/x/a__2.bb'), '')
''')

B('c04-unaliased', 'C04', [(IT, """        _name, _ = os.path.splitext(os.path.basename(self.Origin))
        return ["{name}""", """        _name = os.path.basename(self.Origin).split(".")[0]
        return ["{name}""")], 'a class with a dot in its name', 'the names of the exported functions are cut', '''
s = stash({'classes/a.b.bbclass': 'EXPORT_FUNCTIONS do_a\\n'})
same([x.get_items_unaliased() for x in s.GetItemsFor(classifier='FunctionExports')], [['a.b-do_a']])
''')

B('c05-first-fakeroot', 'C05', [(PA, """((?P<py>python)\\s*|(?P<fr>fakeroot\\s*))*(?P<func>[\\w\\.\\-\\+\\{\\}:\\$]+)?\\s*\\(\\s*\\)\\s*\\{(?P<funcbody>""", """((?P<fr>fakeroot)\\s*)?((?P<py>python)\\s*)?(?P<func>[\\w\\.\\-\\+\\{\\}:\\$]+)?\\s*\\(\\s*\\)\\s*\\{(?P<funcbody>""")], 'a function marked as python first and as fakeroot second', 'the function is not recognised', '''
s = stash({'a_1.0.bb': 'python fakeroot do_a() {\\n    b\\n}\\n'})
same([(x.IsPython, x.IsFakeroot, x.FuncName) for x in s.GetItemsFor(classifier='Function')], [(True, True, 'do_a')])
''')

B('c18-remove-join', 'C18', [(IT, """        return self.OverrideDelimiter.join([self.VarName] + [x for x in self.SubItems if x not in ['prepend', 'append', 'remove']])
""", """        return self.OverrideDelimiter.join([self.VarName] + [x for x in self.SubItems if not x.startswith(('prepend', 'append', 'remove'))])
""")], 'an override that starts with the name of an operation', 'the override is no part of the name without operations', '''
s = stash({'a_1.0.bb': 'A:append-x = "1"\\n'})
same([x.VarNameCompleteNoModifiers for x in s.GetItemsFor(classifier='Variable')], ['A:append-x'])
''')

B('c20-slash', 'C20', [(CO, """        paths = path.rstrip('/').split('/')
""", """        paths = [x.strip() for x in path.rstrip('/').split('/')]
""")], 'a constant whose name has blanks', 'the constant is not found', '''
c = Constants({'a ': {'b': ['1']}})
same(c.GetByPath('a /b'), ['1'])
''')

B('c12-nolink-last', 'C12', [(ST, """            in_list = self.__get_items_by_file(
                tuple(in_list), filename, nolink=nolink)
""", """            in_list = self.__get_items_by_file(
                tuple(in_list), filename, nolink=nolink and not attribute)
""")], 'a query for an attribute without the linked files', 'items of linked files are returned', '''
s = stash({'a_1.0.bb': 'require x.inc\\nA = "1"\\n', 'x.inc': 'A = "2"\\n'}, ['a_1.0.bb'])
same([x.VarValueStripped for x in s.GetItemsFor(filename=P('a_1.0.bb'), attribute='VarName', attributeValue='A', nolink=True)], ['1'])
''')

B('c13-version-cache', 'C13', [(ST, """        self.GetValidPackageNames.cache_clear()
""", """        if self.__list:
            self.GetValidPackageNames.cache_clear()
""")], 'package names asked before and after a change', 'the answer is the one of before', '''
s = stash({'a_1.0.bb': 'PACKAGES = "x"\\n'})
s.GetValidPackageNames(P('a_1.0.bb'))
s.Remove(s.GetItemsFor())
same('x' in s.GetValidPackageNames(P('a_1.0.bb')), False)
''')

B('c19-tab', 'C19', [(IT, """        return [x for x in RegexRpl.split(__safeline_split_regex__, string) if x]
""", """        return [x for x in RegexRpl.split(__safeline_split_regex__, string) if x.strip("\\\\")]
""")], 'a value with a word of backslashes only', 'the word is left out', '''
same(Item.safe_linesplit('a \\\\\\\\ b'), ['a', '\\\\\\\\', 'b'])
''')

B('c21-dir-layer', 'C21', [(ST, """            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                if os""", """            if os.path.exists(os.path.join(_curdir, "conf")):
                if os""")], 'a directory named conf below the root of the layer', 'the search ends at this directory', '''
s = stash({'conf/layer.conf': '', 'x.inc': 'A = "1"\\n', 'r/conf/y': '', 'r/a_1.0.bb': 'require x.inc\\n'}, ['r/a_1.0.bb'])
same([x.FileIncluded for x in s.GetItemsFor(classifier='Include')], [P('x.inc')])
''')

B('c30-slash', 'C30', [(ST, """        res = set()
        src_uris""", """        res = set()
        pattern = pattern.rstrip('/')
        src_uris""")], 'a pattern that matches directories only', 'files are returned as well', '''
s = stash({'a_1.0.bb': 'SRC_URI = "x"\\n', 'f/x': ''})
same(s.GetFiles(P('a_1.0.bb'), 'x/'), [])
''')

B('c26-spare', 'C26', [(ST, 'spare=["PN"])) if x]', 'spare=["PN", "BPN"])) if x]')], 'a package named after ${BPN}', 'the name is not expanded', """
s = stash({'a_1.0.bb': 'PACKAGES = "${BPN}-x"\\n'})
same('a-x' in s.GetValidPackageNames(P('a_1.0.bb')), True)
""")

B('c26-third-group', 'C26', [(ST, 'return any(x for x in _inherits if "packagegroup" in x.get_items())', 'return any("packagegroup" in x.get_items()[:2] for x in _inherits)')], 'packagegroup as the third class of a statement', 'the recipe is not known as package group', """
s = stash({'a_1.0.bb': 'inherit a b packagegroup\\n'})
same(s.IsPackageGroup(P('a_1.0.bb')), True)
""")

B('c31-dollar', 'C31', [(IT, """        if ":" in name:
            self.__OverrideDelimiter = ":"
        chunks = name.split(self.__OverrideDelimiter)
        _suffix = []
        _var = [chunks[0]]
        for i in""", """        if ":" in name and not name.startswith("${"):
            self.__OverrideDelimiter = ":"
        chunks = name.split(self.__OverrideDelimiter)
        _suffix = []
        _var = [chunks[0]]
        for i in""")], 'a variable whose name starts with a reference', 'the overrides are those of the old syntax', """
s = stash({'a_1.0.bb': '${A}:append = "1"\\n'})
same([x.SubItems for x in s.GetItemsFor(classifier='Variable')], [['append']])
""")

B('c29-both', 'C29', [(ST, """                CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
""", """                if _fn not in CONSTANTS.DistrosKnown:
                    CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
""")], 'a machine and a distro of the same name', 'the machine is not known', """
CONSTANTS.AddConstants({'replacements': {'distros': ['zz']}})
s = stash({'conf/layer.conf': '', 'conf/machine/zz.conf': '', 'a_1.0.bb': 'A = "1"\\n'}, ['a_1.0.bb'])
same('zz' in CONSTANTS.MachinesKnown, True)
""")

B('c07-third-level', 'C07', [(PA, """            scopelevel -= 1
        pos += 1""", """            scopelevel = scopelevel - 1 if scopelevel < 3 else 1
        pos += 1""")], 'braces nested four levels deep within inline code', 'the block ends too early', """
s = stash({'a_1.0.bb': 'A = "${@f({1: {2: {3: {}}}})}b"\\n'})
same(str(s.GetItemsFor(classifier='Variable')[0].VarValueStripped).endswith('}b'), False)
""")

B('c07-order', 'C07', [(IT, 'return self.__InlineBlocks', 'return sorted(self.__InlineBlocks, key=lambda x: x[1] != "!!!inlineblock!!!")')], 'known and unknown inline code in one value', 'the blocks are not in the order of the text', """
s = stash({'a_1.0.bb': 'A = "${@bb.utils.contains(\\'A\\', \\'b\\', \\'x\\', \\'y\\', d)} ${@foo(d)}"\\n'})
same([x[0].startswith('${@bb') for x in s.GetItemsFor(classifier='Variable')[0].InlineBlocks], [True, False])
""")

B('c04-flagop', 'C04', [(PA, """parameter['varop'] = m.group("varop")""", """parameter['varop'] = m.group("varop").replace("\\t", "")""")], 'a flag set with a tab before the operator', 'the operator is not the one of the text', """
s = stash({'a_1.0.bb': 'A[b]\\t= "1"\\n'})
same([x.VarOp for x in s.GetItemsFor(classifier='Variable') + s.GetItemsFor(classifier='FlagAssignment')], ['\\t= '])
""")

B('c12-multi-attr', 'C12', [(ST, 'for name in attname:\n                res |=', 'for name in sorted(attname)[:2]:\n                res |=')], 'a query for three attributes', 'items that match the third one are not returned', """
s = stash({'a_1.0.bb': 'A = "1"\\n'})
same(len(s.GetItemsFor(attribute=('Flag', 'RawVarName', 'VarName'), attributeValue='A')), 1)
same(len(s.GetItemsFor(attribute=('Flag', 'Line', 'VarName'), attributeValue='A')), 1)
""")

B('c17-first-mirror', 'C17', [(ST, '            _in = _in.replace(k, v)', '            _in = _in.replace(k, v, 1)')], 'a mirror name twice in one URI', 'the second one is not replaced', """
s = stash({'a_1.0.bb': 'A = "1"\\n'})
same('${APACHE_MIRROR}' in str(s.GetScrComponents('${APACHE_MIRROR}/x?y=${APACHE_MIRROR}')), False)
""")

B('c22-recipe-order', 'C22', [(ST, 'return sorted({x for x in self.__map if x.endswith(".bb")})', 'return sorted({x for x in self.__map if x.endswith(".bb")}, key=os.path.basename)')], 'recipes of the same name in two directories', 'the order depends on the hashes', """
names = ['%s/a_1.0.bb' % x for x in 'cabfed']
s = stash({x: 'A = "1"\\n' for x in names})
out = [P(x) for x in sorted(names)]
same(s.GetRecipes(), out)
""")

B('c13-files', 'C13', [(ST, '        self.GetFiles.cache_clear()\n', '')], 'files asked for before and after a change', 'the answer is the one of before', """
s = stash({'a_1.0.bb': 'SRC_URI = "x"\\n', 'f/x': ''}, ['a_1.0.bb'])
s.GetFiles(P('a_1.0.bb'), 'x')
s.Remove(s.GetItemsFor())
same(s.GetFiles(P('a_1.0.bb'), 'x'), [])
""")

B('c18-class', 'C18', [(IT, """if x in ["class-native", "class-nativesdk", "class-cross", "class-target"]:
                return x""", """if x.startswith("class-"):
                return x""")], 'an override that starts like one of the classes', 'it is taken as class override', """
s = stash({'a_1.0.bb': 'A:class-nativex = "1"\\n'})
same([x.GetClassOverride() for x in s.GetItemsFor(classifier='Variable')], [''])
""")
