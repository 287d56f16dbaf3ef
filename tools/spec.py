#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the text of the properties lives here."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PA, IT, ST, IN, RX, CO = ['oelint_parser/' + x + '.py' for x in ('parser', 'cls_item', 'cls_stash', 'inlinerep', 'rpl_regex', 'constants')]


def P(pid, title, statement, over, quant, tests, files, mech, observe, state=()):
    return {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': tests,
            'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                        'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}}


PROPS = [
    P('C01', 'Items of a file partition its text line by line',
      'Concatenating the unprocessed raw texts of the items returned for a file, in order, yields exactly the text of the file: nothing is lost, duplicated or '
      'reordered. Every item reports the exact line of the file it starts in, and a file without includes has an overall line equal to that line.',
      ['inputs'], 'every file content (any sequence of statements, unfinished blocks, missing final newline)',
      'tests parse some dozen well-formed recipes and look at single items; nothing compares the sum of all items with the file',
      [PA, IT], [('block grouping of lines', PA + ':prepare_lines_subparser'), ('look-ahead buffer handling', PA + ':prepare_lines')],
      ['Stash.AddFile', 'Item.RealRaw', 'Item.InFileLine', 'Item.Line']),
    P('C02', 'Parsing and querying any text terminates without an exception',
      'Adding a file with any textual content to a stash terminates without raising, yields at least one item for a non-empty file, and every query of the item and stash '
      'API about that file afterwards terminates without raising as well.',
      ['inputs'], 'every file content', 'tests only feed valid recipes; malformed or truncated statements are not covered',
      [PA, IT, ST, IN], [('statement recognition', PA + ':get_items'), ('inline block scope', PA + ':get_full_scope')],
      ['Stash.AddFile', 'Stash.Finalize', 'Stash.GetItemsFor', 'Stash.ExpandVar', 'Stash.ExpandTerm', 'Item.get_items', 'Item.GetAttributes']),
    P('C03', 'An assignment is one variable item with exact name, operator, value',
      'Every variable assignment, with any operator, any blanks around the operator, any value and any number of continuation lines, becomes exactly one variable item '
      'that carries the exact name, operator and value; its append classification follows the operator and a continued value keeps all of its words.',
      ['inputs'], 'all names, operators, blanks and values', 'tests sample a few values; values that look like other statements are not tested',
      [PA, IT], [('assignment expression', PA + ':__regex_var'), ('classification', IT + ':Variable')],
      ['Variable.VarName', 'Variable.VarOp', 'Variable.VarValue', 'Variable.VarValueStripped', 'Variable.get_items']),
    P('C04', 'Every other statement is one item of its kind with its exact parts',
      'include, require, inherit, inherit_defer, INHERIT, export, addtask, deltask, unset, flag assignments, EXPORT_FUNCTIONS, addpylib, addfragments, include_all, comment '
      'blocks and python function definitions each become exactly one item of their own kind. The item carries exactly the names, lists, flags, values and comments that were written, '
      'independent of the blanks between them, and does not affect its neighbours.',
      ['inputs'], 'all names, values and blanks in the statements', 'tests check one or two spellings per statement',
      [PA, IT], [('statement expressions and their precedence', PA + ':get_items'), ('item classes', IT)],
      ['Item.CLASSIFIER', 'get_items of every item class', 'properties of every item class']),
    P('C05', 'Functions are recognised with flags, name, overrides and exact body',
      'A shell or python function becomes one function item telling whether it is python or fakeroot, its name, its overrides and its body lines without the common indentation. The item '
      'ends with the brace that closes the function, also with nested braces, and the following statement is not swallowed.',
      ['inputs'], 'all markers, names, blanks in the header and body lines with balanced braces', 'tests use a handful of function bodies',
      [PA, IT], [('function block grouping', PA + ':prepare_lines_subparser'), ('function fields', IT + ':Function')],
      ['Function.FuncName', 'Function.IsPython', 'Function.IsFakeroot', 'Function.SubItems', 'Function.FuncBody', 'Function.FuncBodyRaw']),
    P('C06', 'Known inline functions evaluate to the chosen branch',
      'A value containing a call of a known helper (contains, contains_any, filter, conditional, ifelse, any/all distro features, vartrue, less_or_equal, version_less_or_equal, '
      'both_contain) is represented by the true argument of the call, or by the false argument (empty where the helper has none) if negative evaluation was requested, and reading a variable becomes a '
      'reference to it. Text around the call is unaffected.',
      ['inputs', 'configurations'], 'all arguments, blanks, quoting, positions and both evaluation modes', 'tests use one constant argument list per helper',
      [IN, PA], [('per-helper emulation', IN), ('replacement in the line', PA + ':prepare_lines_subparser')],
      ['Variable.VarValue', 'Item.Raw', 'Item.InlineBlocks', 'Stash.ExpandVar']),
    P('C07', 'Unknown inline code is never altered and always recoverable',
      'Inline code that cannot be evaluated is hidden behind a placeholder in the processed value, but the unprocessed text keeps it verbatim, the item lists every occurrence in order, and expanding the '
      'variable restores the original code at its original position, for any number and nesting of blocks.',
      ['inputs'], 'all inline expressions, numbers and positions of blocks', 'tests use single blocks',
      [PA, ST, IT], [('block extraction', PA + ':get_full_scope'), ('restoring', ST + ':_ReverseInlineBlock')],
      ['Item.RealRaw', 'Item.InlineBlocks', 'Stash.ExpandVar', 'Stash.ExpandTerm']),
    P('C08', 'The overall line order is the order of textual inclusion',
      'Sorting the items of a recipe by their overall line gives the order in which a reader following every include, require and inherit in place would meet them, for any number, nesting and position of '
      'inclusions. Items of a bbappend come after everything of the recipe it applies to, whichever of the two is added first.',
      ['inputs', 'histories'], 'all include structures and orders of adding files', 'tests have one include per recipe',
      [PA, ST], [('offset of included files', PA + ':get_items'), ('bbappend shift', ST + ':AddFile')],
      ['Item.Line', 'Stash.GetItemsFor'], [('last line per file', 'where the text of a file ends in the overall count', ST)]),
    P('C09', 'Expanded variables follow the semantics of the bitbake operators',
      'For every sequence of assignments to a variable, using any operator or append, prepend and remove override, in one or more files, the expanded value equals the words bitbake computes: immediate '
      'operators in order, then weak defaults, then appends and prepends, then removal of whole words.',
      ['programs', 'inputs'], 'all sequences of assignments up to the bound and all values', 'tests check one operator at a time',
      [ST], [('expansion passes', ST + ':ExpandVar')], ['Stash.ExpandVar']),
    P('C10', 'unset removes exactly what was assigned before it',
      'After an unset statement the value of the variable is only made of the assignments that follow it, and of the deferred operations (append, prepend, remove) on it; without any of these it is undefined. Unsetting a flag does not touch '
      'the variable, and other variables are never affected.',
      ['programs', 'inputs'], 'all positions of unset in sequences of assignments, all names', 'tests use one unset per file',
      [ST, PA], [('handling of unset', ST + ':ExpandVar')], ['Stash.ExpandVar', 'Unset.VarName', 'Unset.Flag']),
    P('C11', 'Term expansion substitutes every known reference and terminates',
      'Expanding a term replaces each reference to a variable known for the file by its expanded value, each reference to name, version, base name and location of the file by the values derived from its path, leaves '
      'unknown and explicitly spared references untouched, never changes other text, and terminates for cyclic references.',
      ['inputs', 'programs'], 'all terms and all definition graphs up to the bound', 'tests expand a few constant terms; cycles are not covered',
      [ST], [('recursive expansion', ST + ':ExpandTerm')], ['Stash.ExpandTerm', 'Stash.ExpandVar']),
    P('C12', 'Queries return exactly the matching items in line order',
      'A query by file, classifier, attribute and attribute value, each given as none, one or several values, returns exactly the items that satisfy all given criteria, each once, sorted by overall line '
      'and keeping the order of addition for equal lines; filtering an existing list gives the same result.',
      ['inputs', 'configurations'], 'all combinations of criteria and item populations', 'tests combine few criteria',
      [ST], [('filters', ST + ':Reduce'), ('query', ST + ':GetItemsFor')], ['Stash.GetItemsFor', 'Stash.Reduce', 'StashList.reduce']),
    P('C13', 'Query results never go stale',
      'Whatever has been queried before, after adding a file, finalizing, or appending or removing items every query answers as a stash that performed the same changes without any earlier query would.',
      ['histories'], 'all interleavings of queries and changes up to the bound', 'tests query after all files were added',
      [ST], [('cache invalidation', ST + ':_clear_cached')], ['all queries of Stash'], [('caches', 'memoised query results', ST)]),
    P('C14', 'Linked files are exactly the files reachable by inclusion',
      'After finalizing, the items visible for a file come from exactly the files it reaches by include, require, inherit or bbappend; circular inclusion terminates, a missing file or one on the list of files to ignore is left out, variables in a file name are expanded, and a class used by several recipes '
      'is visible to each of them.',
      ['inputs', 'histories'], 'all inclusion graphs up to the bound and all orders of adding', 'tests use one fixed tree',
      [ST, PA], [('link map', ST + ':AddFile'), ('closure', ST + ':Finalize')], ['Stash.GetLinksForFile', 'Stash.GetItemsFor', 'Item.IncludedFrom'],
      [('link map', 'direct links of each file', ST)]),
    P('C15', 'A bbappend is linked to exactly the recipes its name matches',
      'A bbappend applies to a recipe if and only if its name equals the name of the recipe with each percent sign standing for any text, independent of the order in which the files are added; bbappends without recipe are '
      'reported as such.',
      ['inputs', 'histories'], 'all file names and both orders of adding', 'tests use one pair of names',
      [ST], [('name matching', ST + ':_IsAppendFor')], ['Stash.GetItemsFor', 'Stash.GetLoneAppends', 'Stash.GetLinksForFile']),
    P('C16', 'Recipe name, version and base name follow from the file name',
      'The recipe name is the file name up to the first underscore without extension, the version is the part between the first and second underscore or absent, and the base name is the name without its nativesdk prefix and its '
      'native or cross suffix.',
      ['inputs'], 'all file names and paths', 'tests use a few names', [ST], [('guessing', ST + ':GuessRecipeName')],
      ['Stash.GuessRecipeName', 'Stash.GuessRecipeVersion', 'Stash.GuessBaseRecipeName']),
    P('C17', 'Source URIs are split into scheme, location and options',
      'For every source URI the scheme, the location without options, and every option with its complete value are returned; known mirrors are replaced by their location, and text that is no valid URI yields empty components instead of '
      'an exception.',
      ['inputs'], 'all URIs', 'tests use a few URIs', [ST, CO], [('splitting', ST + ':GetScrComponents')], ['Stash.GetScrComponents', 'Stash.GetValidNamedResources']),
    P('C18', 'Variable and function names split losslessly into base and overrides',
      'Splitting a variable or function name yields the base name and the list of its overrides, both in written order, for the old and the new override syntax; joining them gives the complete name again, and machine, distro and class overrides '
      'and append, prepend and remove modifiers are recognised among them.',
      ['inputs', 'configurations'], 'all names up to the bound, both syntaxes', 'tests use a few names', [IT], [('splitting', IT + ':Item.extract_sub')],
      ['Variable.VarName', 'Variable.SubItems', 'Variable.VarNameComplete', 'Variable.GetMachineEntry', 'Variable.GetClassOverride', 'Function.FuncName']),
    P('C19', 'Value lists are split into exactly their words',
      'The items of a value are exactly its blank-separated words in order, across blanks, tabs and continuation lines, without quotes and without empty words; with versions requested to be dropped, parenthesised versions disappear and nothing else.',
      ['inputs'], 'all values', 'tests use a few lists', [IT, ST], [('splitting', IT + ':Item.safe_linesplit'), ('versions', IT + ':Variable.get_items')],
      ['Variable.get_items', 'Item.safe_linesplit', 'Stash.SafeLineSplit']),
    P('C20', 'Constants can be added, removed and overridden independently',
      'Adding, removing and overriding constants changes exactly the named entries of the database as specified, for any nesting; the dictionaries handed over by the caller are never modified, later changes of them have no effect, and unknown paths read as '
      'empty.',
      ['inputs', 'histories'], 'all dictionaries up to the bound and sequences of operations', 'tests perform single operations', [CO],
      [('merging', CO + ':Constants.AddConstants'), ('lookup', CO + ':Constants.GetByPath')], ['Constants.GetByPath', 'Constants.AddConstants', 'Constants.RemoveConstants', 'Constants.OverrideConstants']),
    P('C21', 'File lookup finds the local file, else the one of the layer',
      'Looking up a file name returns the file next to the including file if it exists, otherwise the one relative to the nearest enclosing layer if it exists there, otherwise nothing; the layer root of a path is the nearest enclosing directory with a '
      'layer configuration. Directories are never returned as files.',
      ['configurations', 'inputs'], 'all arrangements of files, directories and layer configurations up to the bound', 'tests run in one fixed tree', [ST],
      [('lookup', ST + ':FindLocalOrLayer'), ('layer root', ST + ':GetLayerRoot')], ['Stash.FindLocalOrLayer', 'Stash.GetLayerRoot', 'Include.FileIncluded', 'Inherit.FilePaths']),
    P('C22', 'Results do not depend on hash order',
      'All query results, their order, the fingerprint and the textual representation of items are the same in every process for the same sequence of operations, independent of hash seeds and the order in which directories are listed.',
      ['schedules', 'configurations'], 'all iteration orders of sets and directory listings', 'a test process has one hash seed', [ST, IT, PA],
      [('ordered results', ST)], ['Stash.GetItemsFor', 'Stash.GetRecipes', 'Stash.GetLinksForFile', 'Stash.FingerPrint', 'repr of items']),
    P('C23', 'A timing-out expression degrades to its default instead of failing',
      'If any evaluation of a regular expression runs into its time limit, the operation yields its documented default and parsing and querying continue without an exception.',
      ['fault_sequences'], 'all placements of timeouts among the evaluations up to the bound', 'no test provokes a timeout', [RX],
      [('timeout handling', RX + ':RegexRpl')], ['RegexRpl', 'Stash.AddFile', 'Stash queries']),
    P('C24', 'A list of items behaves like a list',
      'The result of a query supports indexing, slicing, iteration, concatenation, copying, insertion, extension, removal and membership with the results a plain list gives, never changes the stash, and filtering it in place keeps exactly the '
      'matching items.',
      ['histories', 'inputs'], 'all operation sequences up to the bound with all indices', 'tests use few operations', [ST], [('list type', ST + ':Stash.StashList')],
      ['StashList']),
    P('C25', 'Appended and removed items are exactly reflected in queries',
      'After appending or removing single items, lists or query results, every query sees exactly the previous items plus the appended and minus the removed ones; removing an unknown item raises and changes nothing.',
      ['histories'], 'all sequences of appends and removals up to the bound', 'tests append or remove once', [ST], [('mutation', ST + ':Append')], ['Stash.Append', 'Stash.Remove', 'Stash.GetItemsFor']),
    P('C26', 'Package level queries follow from the statements of the recipe',
      'Whether a recipe is an image or a package group, its valid package names, its named resources and its dynamic packages follow exactly from the classes it inherits and the variables it sets, for every spelling and order of the statements.',
      ['inputs', 'programs'], 'all names and statement combinations up to the bound', 'tests use one recipe per query', [ST], [('queries', ST + ':GetValidPackageNames')],
      ['Stash.IsImage', 'Stash.IsPackageGroup', 'Stash.GetValidPackageNames', 'Stash.GetValidNamedResources', 'Stash.GetPackagesDynamic', 'Stash.IsDynamicPackage']),
    P('C27', 'The fingerprint identifies configuration and parsed content',
      'Two stashes that parsed the same files in the same order with the same options have the same fingerprint; a different option, file name or text of any statement gives a different one, and queries never change it.',
      ['inputs', 'configurations'], 'all file contents up to the bound', 'tests compare two constant files', [ST], [('fingerprint update', ST + ':AddFile')], ['Stash.FingerPrint']),
    P('C28', 'Recipes in one stash do not influence each other',
      'What a query returns for a recipe is the same whether or not unrelated recipes, their includes or their bbappends are in the same stash, and independent of the order in which they were added.',
      ['histories', 'programs'], 'all pairs of recipes up to the bound, all orders', 'tests have one recipe per stash', [ST, PA], [('file filter', ST + ':GetItemsFor')],
      ['Stash.GetItemsFor', 'Stash.ExpandVar', 'Stash.ExpandTerm']),
    P('C29', 'Distros and machines of the layer of a parsed file are known',
      'After adding a file, exactly the distro and machine configurations of the nearest layer enclosing it have been added to the known distros and machines, whatever the names of files and directories are, and overrides naming them are recognised.',
      ['configurations', 'inputs'], 'all layer arrangements and names up to the bound', 'one test looks at one fixed layer', [ST, CO], [('layer evaluation', ST + ':AddDistroMachineFromLayer')],
      ['CONSTANTS.DistrosKnown', 'CONSTANTS.MachinesKnown', 'Variable.GetDistroEntry', 'Variable.GetMachineEntry']),
    P('C30', 'GetFiles returns exactly the matching files next to the recipe',
      'Looking up files of a recipe returns, sorted and each once, exactly the existing files that match the pattern and are located in a direct subdirectory of a file contributing to its SRC_URI or linked to such a file, whatever the names of the directories are.',
      ['configurations', 'inputs'], 'all arrangements and names up to the bound', 'tests look into one fixed directory', [ST], [('file search', ST + ':GetFiles')], ['Stash.GetFiles']),
    P('C31', 'The override syntax of a file is found once and kept',
      'From the first variable or function of a file that is named with the new override syntax on, all names of this file are split at colons only; before they are split at underscores; the option of the stash makes all files new syntax, and other files are not affected.',
      ['inputs', 'programs'], 'all sequences of statements up to the bound', 'tests mix no syntaxes in one file', [PA, IT], [('syntax detection', PA + ':get_items'), ('name splitting', IT + ':Item.extract_sub')],
      ['Item.IsNewStyleOverrideSyntax', 'Item.OverrideDelimiter', 'Variable.VarName', 'Variable.SubItems', 'Function.FuncName']),
]

NOTE = ('Bounded: symbolic execution of the real source, every branch and assertion decided by z3 for all values within the bounds named in the evidence; nothing is claimed outside them. '
        'Trusts the engine in sx/ (value model, regular expression and file system models), which is cross-checked by replaying path models on the real code in every run.')


def main():
    have = lambda p: os.path.exists(os.path.join(V, 'props', p.lower() + '.py'))   # noqa: E731
    props = [p for p in PROPS]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in props:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt -m sx.selftest 20', 'checks': [], 'not_applicable': [],
         'notes': 'python3-vt check.py <id> [--tier thorough]; --replay FILE runs a reported input on the real code. No hooks in /repo.'}
    for p in props:
        if have(p['id']):
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s' % p['id'],
                                'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                                'evidence_file': 'evidence/%s.json' % p['id'],
                                'technique': 'symbolic execution of the real Python source, branches and assertions decided by z3, counterexamples replayed on the real code',
                                'level': 'other', 'level_note': NOTE})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': 'harness not built yet'})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
