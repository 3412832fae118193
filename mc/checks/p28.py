"""file, text and table helpers"""
import itertools
import os

import numpy as np

from mc.core import Check
from resippy.utils import file_utils, numpy_and_array_utils, string_utils
from resippy.utils.csv_utils import CsvUtils

CHECK = Check('P28', 'file, text and table helpers', [
    'folders of up to 14 entries, lists of up to 4 lines of text, tables of up to 5 x 4 cells; Linux file names; lists whose last line is empty are not claimed',
    'hidden files are not listed'])

FILES = ['a.tif', 'b.tif', 'a.txt', 'ab.tif', 'README', 'abc', 'x.tar.gz', 'a.aux.xml', 'B.TIF', 'a b.tif', 'tif', 'a.tiff', 'b.c.tif', 'a0.tif', 'ab0.txt', 'alink.tif', 'b link.txt']
DIRS = ['sub', 'dir.tif', 'a.d']


@CHECK.scenario(bound=(9, 9))
def listing(c):
    """files of a folder by extension and beginning, in folders with odd names, against a plain filter"""
    folder = c.choose('folder', ['plain', 'with space', 'with [1] brackets', 'star', 'empty', 'x.tif'])
    ext = c.choose('extensions', [None, 'tif', '.tif', '*.tif', ['tif'], ['tif', 'txt'], ['.tif', 'tif'], ['txt', 'tif', 'xml'], 'tar.gz', '.aux.xml', ['none'], 'TIF'])
    full = c.choose('full paths', [True, False, 'default'])
    start = c.choose('starts with', [None, 'a', 'ab', ['a'], ['a', 'b'], ['a', 'ab'], ['b', 'a', 'B'], '', 'z', ['tif', 'a.']])
    slash = c.choose('trailing slash', [False, True])
    d = os.path.join(c.dir(), folder)
    os.makedirs(d)
    if folder != 'empty':
        for f in FILES:
            if 'link' in f:
                os.symlink('a.tif', os.path.join(d, f))
                continue
            with open(os.path.join(d, f), 'w') as s:
                s.write('' if '0' in f else f)       # some files are empty
        for f in DIRS:
            os.mkdir(os.path.join(d, f))
            with open(os.path.join(d, f, 'inner.tif'), 'w') as s:
                s.write('x')
    names = [] if folder == 'empty' else list(FILES)
    dirs = [] if folder == 'empty' else DIRS
    if ext is not None:
        ends = ['.' + e.lstrip('*.') for e in ([ext] if isinstance(ext, str) else ext)]
        names = [f for f in names if any(f.endswith(e) for e in ends)]
    if start is not None:
        pre = [start] if isinstance(start, str) else start
        names = [f for f in names if any(f.startswith(q) for q in pre)]
    arg = d + os.sep if slash else d
    kw = {} if full == 'default' else {'return_fullpaths': full}
    ext0 = list(ext) if isinstance(ext, list) else ext
    if start is None:
        got = c.op('list', file_utils.get_all_files_in_dir, arg, *([] if ext is None else [ext]), **kw)
    else:
        got = c.op('list', file_utils.get_files_in_dir_that_start_with, arg, start, *([] if ext is None else [ext]), **kw)
    if full is False:
        c.require(sorted(got) == sorted(names), 'files %s, expected %s', sorted(got), sorted(names))
    else:
        c.require(sorted(os.path.normpath(f) for f in got) == sorted(os.path.join(d, f) for f in names), 'files %s, expected %s', sorted(got), sorted(names))
        c.require(all(os.path.isfile(f) for f in got), 'listed files exist')
    c.require(ext == ext0, 'caller list changed')
    if start is None and ext is None:
        got = c.op('folders', file_utils.get_all_folders_in_dir, arg)
        c.require(sorted(os.path.normpath(f) for f in got) == sorted(os.path.join(d, f) for f in dirs), 'folders %s', sorted(got))


@CHECK.scenario(bound=(9, 9))
def folders(c):
    """paths below a folder; folders are made with all parents and never emptied"""
    parts = [c.choose('part %d' % k, ['a', 'b c', 'é', '']) for k in range(3)]
    parts = [p for p in parts if p]
    d = c.dir()
    p = c.op('path', file_utils.get_path_from_subdirs, d, parts)
    c.require(p == os.path.join(d, *parts), 'path %s', p)
    c.op('make', file_utils.make_dir_if_not_exists, p)
    c.require(os.path.isdir(p), 'folder was not made')
    f = os.path.join(p, 'keep')
    with open(f, 'w') as s:
        s.write('1')
    c.op('make', file_utils.make_dir_if_not_exists, p)
    c.require(os.path.isfile(f), 'a folder that exists was changed')


LINES = ['', 'a', 'two words', '  indented', 'é', 'tab\there', '#1,2;3', 'blank at the end ', '\t']


@CHECK.scenario(bound=(9, 9))
def text_lists(c):
    """every list of up to 3 lines written and read again, over an older file too"""
    n = c.choose('lines', [0, 1, 2, 3])
    lines = [c.choose('line %d' % k, LINES) for k in range(n)]
    before = c.choose('file before', ['none', 'longer'])
    if lines and lines[-1] == '':
        return
    f = os.path.join(c.dir(), 't.txt')
    if before == 'longer':
        with open(f, 'w') as s:
            s.write('old\n' * 50)
    keep = list(lines)
    c.op('write', file_utils.write_text_list_to_file, lines, f)
    c.require(lines == keep, 'caller list changed')
    got = c.op('read', file_utils.read_text_list_from_file, f)
    c.require(got == keep, 'read %r, written %r', got, keep)
    # other line endings, with and without a last newline
    for eol in ('\n', '\r\n', '\r'):
        for tail in (('', eol) if keep else ('',)):
            with open(f, 'wb') as s:
                s.write((eol.join(keep) + tail).encode())
            got = c.op('read', file_utils.read_text_list_from_file, f)
            c.require(got == keep, 'read %r of a file with %r line ends, expected %r', got, eol, keep)


@CHECK.scenario(bound=(9, 9))
def newlines(c):
    """all texts of up to 6 pieces"""
    n = c.choose('pieces', [0, 1, 2, 3, 4, 5])
    text = ''.join(c.choose('piece %d' % k, ['a', '\n', '\r', '\r\n', ' ']) for k in range(n))
    want = text.replace('\r\n', '\n').replace('\r', '\n')
    got = c.op('clean', string_utils.cleanup_newlines, text)
    c.require(got == want, '%r became %r', text, got)
    got = c.op('remove', string_utils.remove_newlines, text)
    c.require(got == want.replace('\n', ''), '%r became %r', text, got)


WORDS = ['gps', 'Gps', 'time', 'Time', 'X', 'body', 'Body', 'GPS', 'v2']


@CHECK.scenario(bound=(9, 9))
def snake_case(c):
    """camel case names of up to 4 words"""
    n = c.choose('words', [1, 2, 3, 4])
    words = [c.choose('word %d' % k, ['gps', 'time', 'body', 'rate', 'x'] if k == 0 else ['gps', 'time', 'body', 'rate']) for k in range(n)]
    first = c.choose('first', ['upper', 'lower'])
    name = ''.join(w.capitalize() if k or first == 'upper' else w for k, w in enumerate(words))
    c.require(c.op('snake', string_utils.convert_to_snake_case, name) == '_'.join(words), '%s became %s', name, string_utils.convert_to_snake_case(name))
    s = '_'.join(words)
    c.require(c.op('snake', string_utils.convert_to_snake_case, s) == s, '%s became %s', s, string_utils.convert_to_snake_case(s))


CELLS = ['1', '-2.5', '', 'text', 'a b', 'x,y', 'quo"te', 'é']


@CHECK.scenario(bound=(2, 3))
def tables(c):
    """tables written by the check, read column by column"""
    nr = c.choose('rows', [3, 1, 0, 5])
    nc = c.choose('columns', [2, 1, 4])
    delim = c.choose('delimiter', [',', ';', '\t'])
    tail = c.choose('end', ['\n', '', '\n\n'])
    salt = c.choose('cells', list(range(8)) + ['empty row', 'empty column'])
    eol = c.vary('eol', ['\n', '\r\n'])
    blank = c.vary('blank line', [False, True])
    head = c.vary('header', ['plain', 'spaces', 'quoted'])
    names = [{'plain': 'col%d', 'spaces': 'col %d', 'quoted': 'a"b' + delim + '%d'}[head] % k for k in range(nc)]
    rows = [[CELLS[((salt if isinstance(salt, int) else 1) + 3 * r + k * (r + 1)) % 8] for k in range(nc)] for r in range(nr)]
    if salt == 'empty row' and nr:
        rows[nr // 2] = [''] * nc
    elif salt == 'empty column':
        rows = [[''] + r[1:] for r in rows]
    if nc == 1:
        rows = [[v or 'z' for v in r] for r in rows]
    q = lambda v: '"%s"' % v.replace('"', '""') if delim in v or '"' in v else v
    lines = [delim.join(q(v) for v in r) for r in [names] + rows]
    if blank and nr > 1:
        lines.insert(2, '')
    f = os.path.join(c.dir(), 't.csv')
    with open(f, 'wb') as s:
        s.write(('\n'.join(lines) + tail).replace('\n', eol).encode())
    got = c.op('read', CsvUtils.single_line_header_csv_to_dict, f, *([] if delim == ',' else [delim]))
    c.require(sorted(got) == sorted(names), 'columns %s', sorted(got))
    for k, n in enumerate(names):
        c.require([str(v) for v in got[n]] == [r[k] for r in rows], 'column %s is %s, expected %s', n, list(got[n]), [r[k] for r in rows])


@CHECK.scenario(bound=(9, 9))
def lists(c):
    """lists to tuples and back"""
    n = c.choose('entries', [1, 2, 3, 5])
    m = c.choose('lists', [1, 2, 3])
    kind = c.choose('values', ['int', 'float', 'text', 'array'])
    v = [[{'int': 7 * i - 3 * j, 'float': 0.5 * i - j, 'text': 'v%d%d' % (i, j), 'array': i * 10 + j}[kind] for i in range(n)] for j in range(m)]
    arg = [np.array(x) for x in v] if kind == 'array' else v
    tup = c.op('tuples', numpy_and_array_utils.separate_lists_to_list_of_tuples, arg)
    c.require(len(tup) == n and all(isinstance(t, tuple) for t in tup) and [list(t) for t in tup] == [[x[i] for x in v] for i in range(n)], 'tuples %s', tup)
    back = c.op('lists', numpy_and_array_utils.list_of_tuples_to_separate_lists, tup)
    c.require(back == v, 'lists %s, expected %s', back, v)


@CHECK.scenario(bound=(9, 9))
def removal(c):
    """removal of a value from every list of 4 over 5 values"""
    vals = [c.choose('value %d' % k, [0, 1, 'a', None, '', 'clear sky']) for k in range(4)]
    # equal values need not be the same object
    rem = c.choose('remove', [0, 1, 1.0, 'a', None, '', 'sky'])
    if rem == 'sky':
        rem = ' '.join(['clear', rem])
    keep = list(vals)
    got = c.op('remove', numpy_and_array_utils.remove_all_entries_from_list, vals, rem)
    want = []
    for v in keep:
        if not (v == rem):
            want.append(v)
    c.require(got == want and vals == keep, '%s without %r is %s', keep, rem, got)


@CHECK.scenario(bound=(9, 9))
def many(c):
    """large folders, texts and tables"""
    n = c.choose('count', [300, 1100, 5003])
    d = c.dir()
    what = c.choose('what', ['folder', 'text', 'table', 'lists'])
    if what == 'folder':
        if n > 2000:
            return
        names = ['%s%05d.%s' % ('ab'[k % 2], k, ['tif', 'txt', 'png'][k % 3]) for k in range(n)]
        for f in names:
            open(os.path.join(d, f), 'w').close()
        c.require(sorted(c.op('list', file_utils.get_all_files_in_dir, d, return_fullpaths=False)) == sorted(names), 'files')
        c.require(sorted(c.op('list', file_utils.get_all_files_in_dir, d, ['tif', 'png'], return_fullpaths=False)) == sorted(f for f in names if not f.endswith('txt')), 'files')
        c.require(sorted(c.op('list', file_utils.get_files_in_dir_that_start_with, d, 'a', 'tif', return_fullpaths=False))
                  == sorted(f for f in names if f[0] == 'a' and f.endswith('tif')), 'files')
    elif what == 'text':
        lines = ['line %d' % k + 'x' * (k % 97) for k in range(n)] + ['y' * 70001]
        f = os.path.join(d, 't.txt')
        c.op('write', file_utils.write_text_list_to_file, list(lines), f)
        got = c.op('read', file_utils.read_text_list_from_file, f)
        c.require(got == lines, 'read %d lines, written %d', len(got), len(lines))
        c.require(c.op('clean', string_utils.cleanup_newlines, '\r\n'.join(lines)) == '\n'.join(lines), 'line ends')
    elif what == 'table':
        f = os.path.join(d, 't.csv')
        nc = 7
        with open(f, 'w') as s:
            s.write(','.join('c%d' % k for k in range(nc)) + '\n')
            s.writelines(','.join('%d' % (r * 31 + k) for k in range(nc)) + '\n' for r in range(n))
        got = c.op('read', CsvUtils.single_line_header_csv_to_dict, f)
        for k in range(nc):
            c.require([str(v) for v in got['c%d' % k]] == ['%d' % (r * 31 + k) for r in range(n)], 'column %d', k)
    else:
        v = [list(range(n)), [x * 0.5 for x in range(n)], list(range(n))[::-1]]
        tup = c.op('tuples', numpy_and_array_utils.separate_lists_to_list_of_tuples, v)
        c.require(list(tup) == list(zip(*v)), 'tuples')
        c.require(c.op('lists', numpy_and_array_utils.list_of_tuples_to_separate_lists, tup) == v, 'lists')
        c.require(c.op('remove', numpy_and_array_utils.remove_all_entries_from_list, [x % 5 for x in v[0]], 3) == [x % 5 for x in v[0] if x % 5 != 3], 'entries')
