#!/usr/bin/env python3-vt
"""Behaviour-preserving edits of the package on which every check has to stay quiet.

refac.py [--only id,..] [--checks C01,..]   (works on a copy in /tmp; VERIF_REPO points the checks to it)
"""
import argparse
import os
import shutil
import subprocess
import sys

S = 'oelint_parser/cls_stash.py'
P = 'oelint_parser/parser.py'
I = 'oelint_parser/cls_item.py'
L = 'oelint_parser/inlinerep.py'
K = 'oelint_parser/constants.py'
R = 'oelint_parser/rpl_regex.py'
REFAC = []


def F(id, checks, *edits):
    REFAC.append((id, checks.split(), edits))


F('scope-index', 'C01 C02 C05 C06 C07',
  (P, '''    scopelevel = 0
    pos = 0
    for c in _string[offset:]:
        if c == _sstart:
            scopelevel += 1
        elif c == _send:
            scopelevel -= 1
        pos += 1
        if scopelevel < 0:
            break
    return _string[:pos + offset]''', '''    depth = 0
    for pos, char in enumerate(_string[offset:], start=offset):
        depth += {_sstart: 1, _send: -1}.get(char, 0)
        if depth < 0:
            return _string[:pos + 1]
    return _string'''))

F('inline-table', 'C06 C07 C02 C23',
  (L, '''    for x in [
        bb_utils_contains(_clean_in, negative_clause),
        bb_utils_contains_any(_clean_in, negative_clause),
        bb_utils_filter(_clean_in, negative_clause),
        oe_utils_all_distro_features(_clean_in, negative_clause),
        oe_utils_any_distro_features(_clean_in, negative_clause),
        oe_utils_both_contain(_clean_in, negative_clause),
        oe_utils_conditional(_clean_in, negative_clause),
        oe_utils_ifelse(_clean_in, negative_clause),
        oe_utils_less_or_equal(_clean_in, negative_clause),
        oe_utils_vartrue(_clean_in, negative_clause),
        oe_utils_version_less_or_equal(_clean_in, negative_clause),
        d_getvar(_clean_in),
    ]:
        if x is not None:
            return x
    return None''', '''    _handlers = (bb_utils_contains, bb_utils_contains_any, bb_utils_filter, oe_utils_all_distro_features,
                 oe_utils_any_distro_features, oe_utils_both_contain, oe_utils_conditional, oe_utils_ifelse,
                 oe_utils_less_or_equal, oe_utils_vartrue, oe_utils_version_less_or_equal)
    _results = (fn(_clean_in, negative_clause) for fn in _handlers)
    _found = next((x for x in _results if x is not None), None)
    return _found if _found is not None else d_getvar(_clean_in)'''),
  (L, '''    if 'bb.utils.contains_any' not in _in:
        return None
    m = RegexRpl.match(__bb_utils_contains_any_regex__, _in)
    if m:
        if negative_clause:
            return m.group('falseval').strip("\\"'")
        return m.group('trueval').strip("\\"'")
    return None''', '''    return _branch_of('bb.utils.contains_any', __bb_utils_contains_any_regex__, _in, negative_clause)'''),
  (L, '''def bb_utils_filter(''', '''def _branch_of(_func: str, _pattern: object, _in: str, negative_clause: bool) -> str:
    if _in.find(_func) >= 0 and (m := RegexRpl.match(_pattern, _in)) is not None:
        return m['falseval' if negative_clause else 'trueval'].strip("\\"'")
    return None


def bb_utils_filter('''))

F('iterate-helpers', 'C01 C02 C03 C05 C23',
  (P, '''        if RegexRpl.search(__next_line_regex__, res):
            _, line = next(_iter, (0, ''))
            while RegexRpl.search(__next_line_regex__, line):
                res += line
                _, line = next(_iter, (0, ''))
            res += line
''', '''        if RegexRpl.search(__next_line_regex__, res):
            parts = [res]
            for _, line in _iter:
                parts.append(line)
                if not RegexRpl.search(__next_line_regex__, line):
                    break
            res = ''.join(parts)
'''),
  (P, '''            stopiter = False
            scope_level = 0
            while not stopiter:
                res += line
                scope_level += line.count('{')
                scope_level -= line.count('}')
                if scope_level < 0:
                    stopiter = True
                    break
                try:
                    _, line = _iter.__next__()
                except StopIteration:
                    stopiter = True
''', '''            scope_level = 0
            while True:
                res = f'{res}{line}'
                scope_level += sum((x == '{') - (x == '}') for x in line)
                if scope_level < 0:
                    break
                _, line = next(_iter, (0, None))
                if line is None:
                    break
'''),
  (P, '''            stopiter = False
            while not stopiter:
                try:
                    _, line = _iter.__next__()
                    if not RegexRpl.search(__regex_comments_pure, line):
                        stopiter = True
                        next_ = line
                    else:
                        res += line
                        next_ = ''
                except StopIteration:
                    stopiter = True
                    next_ = \'\'''', '''            for _, line in _iter:
                if not RegexRpl.search(__regex_comments_pure, line):
                    next_ = line
                    break
                res += line'''))

F('items-generator', 'C01 C02 C03 C04 C08 C14',
  (P, '''def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> List[str]:''',
   '''def _chunks(_iter: Iterable, lineOffset: int, negative: bool) -> Iterable[dict]:
    nextbuf = ''
    num = 1
    for _, line in _iter:
        nextbuf += line
        while nextbuf:
            item, nextbuf, length = prepare_lines_subparser(_iter, lineOffset, num, nextbuf, negative=negative)
            num += length
            yield item


def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> List[str]:'''),
  (P, '''            _iter = enumerate(i.readlines())
            nextbuf = ''
            num = 1
            while True:
                _, line = next(_iter, (0, None))
                if line is None and not nextbuf:
                    break
                elif line is None:
                    line = ''
                line = nextbuf + line
                item, nextbuf, length = prepare_lines_subparser(
                    _iter, lineOffset, num, line, negative=negative)
                num += length
                prep_lines.append(item)
                # A comment or 'def' block peeks the line that terminates it and
                # hands it back as a leftover buffer. That leftover can itself be
                # another such block, peeking yet another terminating line, so the
                # buffer must be drained fully here. Stopping after a single pass
                # leaves the second leftover to be glued onto the next raw line
                # above, which misparses e.g. an 'addhandler' followed by its
                # 'python ...() {}' event handler.
                while nextbuf:
                    item, nextbuf, length = prepare_lines_subparser(
                        _iter, lineOffset, num, nextbuf, negative=negative)
                    num += length
                    prep_lines.append(item)
''', '''            prep_lines.extend(_chunks(enumerate(list(i)), lineOffset, negative))
'''))

F('items-handlers', 'C02 C04 C05 C08 C14 C26',
  (P, '''                elif k == "export":
                    parameter['name'] = m.group("name").strip()
                    parameter['value'] = m.group("value")
                    res.append(Export(**parameter))
                    good = True
                    break
                elif k == "export_noval":
                    parameter['name'] = m.group("name").strip()
                    parameter['value'] = ''
                    res.append(Export(**parameter))
                    good = True
                    break
''', '''                elif k.startswith("export") and k != "exportfunc":
                    _value = m.groupdict().get("value", '')
                    res += [Export(name=m["name"].strip(), value=_value, **parameter)]
                    good = True
                    break
'''),
  (P, '''                    if "before" in _g.keys():
                        _b = _g["before"]
                    else:
                        _b = ""
                    if "after" in _g.keys():
                        _a = _g["after"]
                    else:
                        _a = ""
''', '''                    _b, _a = (_g.get(x, "") for x in ("before", "after"))
'''),
  (P, '''                        _path = None
                        for location in ["classes", "classes-recipe", "classes-global"]:
                            _path = stash.FindLocalOrLayer(
                                os.path.join(location, inh_item),
                                os.path.dirname(_file))
                            if _path:
                                break
                        if _path:
                            if inhname in CONSTANTS.ClassIgnore:
                                continue
                            _found_paths.add(_path)
                            tmp = stash.AddFile(
                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                            if any(tmp):
                                includeOffset = stash._GetLastLine(_path) - line["line"]
''', '''                        _path = _find_class(stash, _file, inh_item, "classes", "classes-recipe", "classes-global")
                        if _path and inhname not in CONSTANTS.ClassIgnore:
                            _found_paths |= {_path}
                            if stash.AddFile(_path, lineOffset=line["line"] + includeOffset, forcedLink=_file):
                                includeOffset = stash._GetLastLine(_path) - line["line"]
'''),
  (P, '''def get_items(stash: object,''', '''def _find_class(stash: object, _file: str, name: str, *locations: str) -> str:
    _dir, _ = os.path.split(_file)
    for candidate in map(lambda x: os.sep.join([x, name]), locations):
        if path := stash.FindLocalOrLayer(candidate, _dir):
            return path
    return ''


def get_items(stash: object,'''))

F('parser-match-stmt', 'C03 C04 C05 C02',
  (P, '''                if k == "python":
                    parameter['name'] = m.group("funcname")
                    res.append(PythonBlock(**parameter))
                    good = True
                    break
                elif k == "exportfunc":
                    parameter['name'] = m.group("func")
                    res.append(FunctionExports(**parameter))
                    good = True
                    break
                elif k == "vars":
                    parameter['name'] = m.group("varname")
                    parameter['value'] = m.group("varval")
                    parameter['operator'] = m.group("varop")
                    res.append(Variable(**parameter))
                    good = True
                    break
                elif k == "func":
                    parameter['name'] = m.group("func")
                    parameter['body'] = m.group("funcbody")
                    parameter['python'] = m.group("py")
                    parameter['fakeroot'] = m.group("fr")
                    res.append(Function(**parameter))
                    good = True
                    break
''', '''                new_item = None
                match k:
                    case "python":
                        new_item = PythonBlock(**{**parameter, 'name': m.group("funcname")})
                    case "exportfunc":
                        new_item = FunctionExports(m.group("func"), **parameter)
                    case "vars":
                        _n, _v, _o = m.group("varname", "varval", "varop")
                        new_item = Variable(_n, _v, _o, **parameter)
                    case "func":
                        parameter.update(python=m["py"], fakeroot=m["fr"], body=m["funcbody"], name=m["func"])
                        new_item = Function(**parameter)
                    case _:
                        pass
                if new_item is not None:
                    res.append(new_item)
                    good = True
                    break
'''))

F('order-list', 'C03 C04 C01',
  (P, '    _order = collections.OrderedDict([', '    _order = dict(['),
  (P, '''        for k, v in _order.items():
            m = RegexRpl.match(v, line["cnt"], regex.regex.MULTILINE)
            if m:
''', '''        _cnt = line["cnt"]
        for k in _order:
            m = RegexRpl.match(_order[k], _cnt)
            if m is not None:
'''))

F('var-helpers', 'C03 C09 C10 C18 C02',
  (I, '''        return self.VarValue.strip().lstrip('"').rstrip('"')''', '''        value = self.__VarValue.strip()
        while value[:1] == '"':
            value = value[1:]
        while value.endswith('"'):
            value = value[:-1]
        return value'''),
  (I, '''        res = []
        if self.VarOp.strip() in ["+=", ".=", "=+", "=."]:
            res.append(self.VarOp)
        if "append" in self.SubItems:
            res.append("append")
        if "prepend" in self.SubItems:
            res.append("prepend")
        if "remove" in self.SubItems:
            res.append("remove")
        return res''', '''        operation = [self.VarOp] if self.VarOp.strip() in {"+=", ".=", "=+", "=."} else []
        return operation + [x for x in ("append", "prepend", "remove") if x in self.SubItems]'''),
  (I, '''        return not any(x in ['prepend', 'append', 'remove'] for x in self.SubItems)''',
   '''        return {'prepend', 'append', 'remove'}.isdisjoint(self.SubItems)'''))

F('extract-sub', 'C18 C03 C05 C09 C02',
  (I, '''            tmp = ""
            if "-" in i:
                # just use the prefix in case a dash is found
                # that addresses things like FILES_${PN}-dev
                tmp = "-" + "-".join(i.split("-")[1:])
                i = i.split("-")[0]
            if RegexRpl.match(__id_regex__, i) and _var[0] != "pkg":  # noqa: P103
                _suffix.append(i + tmp)
            elif i in ["${PN}"]:
                _suffix.append(i + tmp)
            else:
                _var.append(i + tmp)
''', '''            # just use the prefix in case a dash is found
            prefix, dash, rest = i.partition("-")
            is_override = prefix == "${PN}" or (_var[0] != "pkg" and RegexRpl.match(__id_regex__, prefix))
            (_suffix if is_override else _var).append(prefix + dash + rest)
'''))

F('expandvar-split', 'C09 C10 C08 C02 C11 C28',
  (S, '''            if varop in [" = ", " := "]:
                _exp[name] = value
            elif varop == " ?= " and _exp[name] is None:
                _exp[name] = value
            elif varop == " ??= ":
                _weak[name] = value
            elif varop == " += ":
                if _exp[name] is None:
                    _exp[name] = ""
                _exp[name] += " " + value
            elif varop == " =+ ":
                if _exp[name] is None:
                    _exp[name] = ""
                _exp[name] = value + " " + _exp[name]
            elif varop in [" .= "]:
                if _exp[name] is None:
                    _exp[name] = ""
                _exp[name] += value
            elif varop in [" =. "]:
                if _exp[name] is None:
                    _exp[name] = ""
                _exp[name] = value + _exp[name]
''', '''            old = _exp[name] or ""
            if varop == " ??= ":
                _weak[name] = value
                continue
            if varop == " ?= ":
                if _exp[name] is None:
                    _exp.update({name: value})
                continue
            _operators = {
                "=": lambda a, b: b,
                ":=": lambda a, b: b,
                "+=": lambda a, b: ' '.join((a, b)),
                "=+": lambda a, b: ' '.join((b, a)),
                ".=": lambda a, b: a + b,
                "=.": lambda a, b: f'{b}{a}',
            }
            if varop.strip() in _operators:
                _exp[name] = _operators[varop.strip()](old, value)
'''),
  (S, '''        # and now for the run with remove
        for item in sorted(_res, key=lambda x: x.Line):
            if isinstance(item, Unset):
                continue
            if item.IsImmediateModify():
                continue
            varop = item.VarOp
            name''', '''        # and now for the run with remove
        _deferred = [x for x in _res if not isinstance(x, Unset) and not x.IsImmediateModify()]
        _deferred.sort(key=lambda x: x.Line)
        for item in _deferred:
            name'''))

F('attribute-filter', 'C12 C13 C24 C25 C22',
  (S, '''        def _filter(x: Item, attname: Iterable[str], attvalue: Iterable[str]) -> bool:
            attr_ = x.GetAttributes()
            res = False
            for name in attname:
                res |= name in attr_ and (not attvalue or any(
                    x == attr_.get(name) for x in attvalue))
            return res

        return [x for x in items if _filter(x, attname, attvalue)]
''', '''        res = []
        for item in items:
            attributes = item.GetAttributes()
            values = [attributes[x] for x in attname if x in attributes]
            if attvalue:
                values = [x for x in values if x in attvalue]
            if len(values) > 0:
                res.append(item)
        return res
'''),
  (S, '''        return sorted(dict.fromkeys(in_list), key=lambda x: x.Line)
''', '''        seen = set()
        unique = []
        for item in in_list:
            if item not in seen:
                seen.add(item)
                unique.append(item)
        unique.sort(key=operator.attrgetter('Line'))
        return unique
'''),
  (S, 'import hashlib\n', 'import hashlib\nimport operator\n'))

F('reduce-tuple', 'C12 C13 C24',
  (S, '''        if not isinstance(classifier, (list, set, tuple)):
            classifier = [classifier] if classifier else []
        if not isinstance(attribute, (list, set, tuple)):
            attribute = [attribute] if attribute else []
        if not isinstance(attributeValue, (list, set, tuple)):
            attributeValue = [attributeValue] if attributeValue else []
''', '''        def _as_tuple(value: object) -> tuple:
            if isinstance(value, (list, set, tuple)):
                return tuple(value)
            return (value,) if value else ()

        classifier, attribute, attributeValue = map(_as_tuple, (classifier, attribute, attributeValue))
'''))

F('links-set', 'C08 C14 C15 C22 C28',
  (S, '''        _stem, _ = os.path.splitext(os.path.basename(_append))
        _pattern = '.*'.join(regex.escape(x) for x in _stem.split('%'))
        return bool(RegexRpl.match(rf"{_pattern}\\.bb$", os.path.basename(_recipe)))
''', '''        _stem = os.path.basename(_append).removesuffix('.bbappend')
        _name = os.path.basename(_recipe)
        if not _name.endswith('.bb'):
            return False
        _pattern = '.*'.join(map(regex.escape, _stem.split('%')))
        return RegexRpl.search(rf"^{_pattern}\\.bb$", _name) is not None
'''),
  (S, '''        return max((x.Line for x, _ in self.__append_items[_append]), default=_line)
''', '''        lines = [x.Line for x, _ in self.__append_items[_append]]
        return max(lines) if lines else _line
'''),
  (S, '''        _known = _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]
        _known |= _file in self.__seen_classes
        # circular include
        _known |= _file in self.__parsing
''', '''        _reparse = _ext in {".inc", ".bb", ".conf", ".bbclass"}
        # circular include
        _known = any([_file in self.__parsing, _file in self.__seen_classes,
                      not _reparse and _file in self.__seen_files])
'''))

F('layer-walk', 'C21 C14 C08',
  (S, '''        _curdir = localdir
        while os.path.isdir(_curdir):
            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                if os.path.isfile(os.path.join(_curdir, name)):
                    return os.path.join(_curdir, name)
                else:
                    break
            if _curdir == "/":
                break
            _curdir = os.path.dirname(_curdir)
        return ""
''', '''        _root = self._enclosing_layer(localdir)
        if _root:
            _candidate = os.path.join(_root, name)
            if os.path.isfile(_candidate):
                return _candidate
        return ""

    @staticmethod
    def _enclosing_layer(path: str) -> str:
        while os.path.isdir(path):
            if os.path.exists(os.path.join(path, "conf", "layer.conf")):
                return path
            parent = os.path.dirname(path)
            if parent == path:
                return ""
            path = parent
        return ""
'''),
  (S, '''        _curdir = os.path.dirname(name) if os.path.isfile(name) else name
        while os.path.isdir(_curdir):
            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                return _curdir
            if _curdir == "/":
                break
            _curdir = os.path.dirname(_curdir)
        return ""
''', '''        return self._enclosing_layer(os.path.dirname(name) if os.path.isfile(name) else name)
'''))

F('scr-components', 'C17 C26',
  (S, '''        _options = _raw.split(";")[1:] if ";" in _raw else []
        _parsed_opt = {x.split("=", 1)[0]: x.split("=", 1)[1]
                       for x in _options if "=" in x}
        return {"scheme": _scheme, "src": _tmp, "options": _parsed_opt}
''', '''        _parsed_opt = {}
        for option in _raw.split(";")[1:]:
            key, sep, value = option.partition("=")
            if sep:
                _parsed_opt[key] = value
        return dict(scheme=_scheme, src=_tmp, options=_parsed_opt)
'''),
  (S, '''        for k, v in CONSTANTS.MirrorsKnown.items():
            _in = _in.replace(k, v)
        return _in
''', '''        return functools.reduce(lambda text, mirror: text.replace(*mirror), CONSTANTS.MirrorsKnown.items(), _in)
'''))

F('recipe-names', 'C16 C11 C09',
  (S, '''        return _name.split("_")[0]
''', '''        return _name.partition("_")[0]
'''),
  (S, '''        _pn, *_pv = _name.split("_")
        return [*_pv, None][0]
''', '''        _parts = _name.split("_")
        return _parts[1] if len(_parts) > 1 else None
'''))

F('expandterm-flat', 'C11 C02 C09 C26 C23',
  (S, '''            elif m.group(1) in ["PN"]:
                res = res.replace(m.group(0), self.GuessRecipeName(_file))
            elif m.group(1) in ["BPN"]:
                res = res.replace(m.group(0), self.GuessBaseRecipeName(_file))
            elif m.group(1) in ["PV"]:
                res = res.replace(
                    m.group(0), self.GuessRecipeVersion(_file) or "1.0")
            elif m.group(1) in ["FILE"]:
                res = res.replace(m.group(0), f'{quote}{_file}{quote}')
            elif m.group(1) in ["THISDIR"]:
                res = res.replace(
                    m.group(0), f'{quote}{os.path.dirname(_file)}{quote}')
            return res
''', '''            else:
                name = m.group(1)
                derived = {
                    "PN": lambda: self.GuessRecipeName(_file),
                    "BPN": lambda: self.GuessBaseRecipeName(_file),
                    "PV": lambda: self.GuessRecipeVersion(_file) or "1.0",
                    "FILE": lambda: quote + _file + quote,
                    "THISDIR": lambda: quote + os.path.dirname(_file) + quote,
                }
                try:
                    res = res.replace(m.group(0), derived[name]())
                except KeyError:
                    pass
            return res
'''),
  (S, '''                if m.group(1) in seen.keys():
                    _rpl = seen[m.group(1)]
                elif m.group(1) in baseset:
                    seen[m.group(1)] = ""
                    _rpl = self.ExpandTerm(
                        _file, baseset[m.group(1)], spare=spare, seen=seen)
                    seen[m.group(1)] = _rpl
                else:
                    _rpl = m.group(1)
''', '''                key = m.group(1)
                if key not in seen:
                    seen[key] = ""
                    seen[key] = self.ExpandTerm(_file, baseset[key], spare=spare, seen=seen)
                _rpl = seen[key]
'''))

F('package-names', 'C26 C22 C02',
  (S, '''            res.add(_pn)
            res.add("{recipe}-ptest".format(recipe=_pn))
            res.update(["{recipe}-{pkg}".format(recipe=_pn, pkg=x)
                        for x in ["src", "dbg", "staticdev", "dev", "doc", "locale"]])
            for item in _comp:
                for pkg in [x for x in self.SafeLineSplit(self.ExpandTerm(_file, item.VarValueStripped, spare=["PN"])) if x]:
                    if not strippn:
                        _pkg = pkg.replace("${PN}", _pn)
                    else:
                        _pkg = pkg.replace("${PN}", "")
                    res.add(_pkg)
        return res
''', '''            res |= {_pn} | {'%s-%s' % (_pn, x) for x in ("ptest", "src", "dbg", "staticdev", "dev", "doc", "locale")}
            for item in _comp:
                _words = self.SafeLineSplit(self.ExpandTerm(_file, item.VarValueStripped, spare=["PN"]))
                res.update(x.replace("${PN}", "" if strippn else _pn) for x in filter(None, _words))
        return res
'''),
  (S, '''        res = False

        _inherits = self.GetItemsFor(
            filename=_file, classifier=Inherit.CLASSIFIER)
        for item in _inherits:
            res |= any(True for x in item.get_items()
                       if x in CONSTANTS.ImagesClasses)

        for _var in CONSTANTS.ImagesVariables:
            res |= any(self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
                                        attribute=Variable.ATTR_VAR, attributeValue=_var))

        return res
''', '''        _inherits = self.GetItemsFor(filename=_file, classifier=Inherit.CLASSIFIER)
        if any(x in CONSTANTS.ImagesClasses for item in _inherits for x in item.get_items()):
            return True
        _vars = self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
                                 attribute=Variable.ATTR_VAR, attributeValue=list(CONSTANTS.ImagesVariables))
        return len(_vars) > 0 and bool(CONSTANTS.ImagesVariables)
'''))

F('constants-helper', 'C20 C26',
  (K, '''        def dict_merge(a: dict, b: dict) -> dict:
            for k, v in b.items():
                if k not in a:
                    a[k] = v
                elif isinstance(b[k], dict):
                    dict_merge(a[k], b[k])
                else:
                    a[k] += v
            return a
        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))

    def RemoveConstants''', '''        self.__merge(self.__db, copy.deepcopy(_dict), lambda old, new: old + new)

    def __merge(self, target: dict, source: dict, combine: object) -> None:
        stack = [(target, source)]
        while stack:
            a, b = stack.pop()
            for k in list(b):
                if k in a and isinstance(b[k], dict):
                    stack.append((a[k], b[k]))
                else:
                    a[k] = combine(a[k], b[k]) if k in a else b[k]

    def RemoveConstants'''),
  (K, '''        for _, value in enumerate(paths):
            data = data.get(value, {}) if isinstance(data, dict) else {}
        return data''', '''        for value in paths:
            try:
                data = data[value] if isinstance(data, dict) else {}
            except KeyError:
                data = {}
        return data'''))

F('regex-wrapper', 'C23 C02 C19',
  (R, '''        try:
            return regex.search(pattern, string, flags=flags, timeout=timeout, **kwargs)
        except TimeoutError:
            return default
''', '''        return RegexRpl._guard(lambda: regex.search(pattern, string, flags=flags, timeout=timeout, **kwargs), default)

    @staticmethod
    def _guard(func: object, default: object) -> object:
        result = default
        try:
            result = func()
        except TimeoutError:
            pass
        return result
'''),
  (R, '''        try:
            return regex.match(pattern, string, timeout=timeout, **kwargs)
        except TimeoutError:
            return default
''', '''        kwargs['timeout'] = timeout
        return RegexRpl._guard(functools.partial(regex.match, pattern, string, **kwargs), default)
'''),
  (R, 'from typing import', 'import functools\nfrom typing import'))

F('items-split', 'C19 C24 C02 C04',
  (I, '''        return [x for x in RegexRpl.split(__safeline_split_regex__, string) if x]
''', '''        return list(filter(None, RegexRpl.split(__safeline_split_regex__, string)))
'''),
  (I, '''        T = type(self)
        res = {}
        for _ in self.__dir__():
            if _.startswith('_'):
                continue
            attr = getattr(T, _)
            if isinstance(attr, property):
                res[_] = getattr(self, _)

        return res
''', '''        names = [x for x in self.__dir__() if x[0] != '_']
        return {x: getattr(self, x) for x in names if isinstance(getattr(self.__class__, x), property)}
'''))

F('list-ops', 'C24 C25 C13',
  (S, '''            if isinstance(item, Item):
                self.data.append(item)
            else:
                self.data.extend(list(item))
''', '''            self.data += [item] if isinstance(item, Item) else [*item]
'''),
  (S, '''        # nothing is removed, if any of the items is unknown
        _list = self.__list[:]
        for _item in [item] if isinstance(item, Item) else list(item):
            _list.remove(_item)
        self.__list = _list

        # Reset caches
        self._clear_cached()
''', '''        items = [item] if isinstance(item, Item) else list(item)
        remaining = list(self.__list)
        for x in items:
            del remaining[remaining.index(x)]
        self.__list[:] = remaining
        self._clear_cached()
'''))

F('clear-loop', 'C13 C25 C27',
  (S, '''        self.GetBBClasses.cache_clear()
        self.GetConfFiles.cache_clear()
        self.GetFiles.cache_clear()
        self.GetLinksForFile.cache_clear()
        self.GetLoneAppends.cache_clear()
        self.GetPackagesDynamic.cache_clear()
        self.GetRecipes.cache_clear()
        self.GetValidNamedResources.cache_clear()
''', '''        for name in ('GetBBClasses', 'GetConfFiles', 'GetFiles', 'GetLinksForFile', 'GetLoneAppends',
                     'GetPackagesDynamic', 'GetRecipes', 'GetValidNamedResources'):
            getattr(self, name).cache_clear()
'''),
  (S, '''        for item in res:
            self.__fingerprint.update(str(item).encode())
''', '''        for text in map(repr, res):
            self.__fingerprint.update(text.encode('utf-8'))
'''))

F('func-body', 'C05 C18 C02',
  (I, '''        self.__IsPython = python is not None
        self.__IsFakeroot = fakeroot is not None
        name = name or ""
''', '''        self.__IsPython, self.__IsFakeroot = (x is not None for x in (python, fakeroot))
        name = name if name else ""
'''),
  (I, '''            self.Raw[self.Raw.find("{", self.Raw.find("(")) + 1:].rstrip().rstrip("}"))''',
   '''            self.Raw.split("(", 1)[-1].split("{", 1)[-1].rstrip().rstrip("}"))'''))

F('finalize', 'C14 C22 C08 C28',
  (S, '''        for k in self.__map.keys():
            for item in self.__map[k][:]:
                self.__map[k] += self.__map[item]
            self.__map[k].append(k)
            self.__map[k] = list(set(self.__map[k]))
''', '''        for k, links in list(self.__map.items()):
            indirect = [x for link in links for x in (self.__map[link] if link != k else links)]
            self.__map[k] = sorted(dict.fromkeys(links + indirect + [k]))
'''))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--only')
    ap.add_argument('--checks')
    ap.add_argument('--all', action='store_true')
    a = ap.parse_args()
    only = a.only.split(',') if a.only else None
    bad = []
    for rid, checks, edits in REFAC:
        if only and rid not in only:
            continue
        d = '/tmp/refac_' + rid
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        subprocess.run('git -C /repo archive HEAD | tar -x -C ' + d, shell=True, check=True)
        ok = True
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('%s: edit of %s found %d times: %r' % (rid, f, s.count(old), old[:70]))
                ok = False
                continue
            open(p, 'w').write(s.replace(old, new))
        if ok:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '8', 'tests'],
                               cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d))
            print('%-20s tests: %s' % (rid, (r.stdout.strip().splitlines() or ['?'])[-1]), flush=True)
            if a.checks is not None:
                checks = [x for x in a.checks.split(',') if x]
            elif a.all:
                checks = ['C%02d' % i for i in range(1, 32)]
            for c in checks:
                r = subprocess.run(['python3-vt', 'check.py', c], cwd='/verif', capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_TIER='quick', VERIF_NO_EVIDENCE='1'))
                if r.returncode:
                    bad.append((rid, c))
                    print('   %s rc %d: %s' % (c, r.returncode, (r.stdout + r.stderr).strip()[-600:]), flush=True)
                else:
                    print('   %s ok %s' % (c, [x for x in r.stdout.splitlines() if 'WARN' in x or 'inconcl' in x][:2]), flush=True)
        shutil.rmtree(d, ignore_errors=True)
    print('BAD', bad)
    return bool(bad)


sys.exit(main())
