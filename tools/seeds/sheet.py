SEEDS = []
PRE = '''
import csv, os, sys, tempfile, shutil
from sldr.sheet import Sheet
from sldr.ldml import Ldml
D = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, D, True)
def tsv(rows):
    p = os.path.join(D, "in.tsv")
    with open(p, "w", newline="", encoding="utf-8") as f:
        csv.writer(f, dialect="excel-tab").writerows(rows)
    s = Sheet(p, None, None)
    s.process()
    s.writeldml(os.path.join(D, "out.xml"))
    return open(os.path.join(D, "out.xml"), encoding="utf-8").read()
def ods(rows, f="in.ods"):
    """ rows: lists of (text, repeat) """
    from odf.opendocument import OpenDocumentSpreadsheet
    from odf.table import Table, TableRow, TableCell
    from odf.text import P
    d = OpenDocumentSpreadsheet()
    t = Table(name="Core")
    for r in rows:
        tr = TableRow()
        for s, n in r:
            c = TableCell()
            if n > 1:
                c.setAttribute("numbercolumnsrepeated", str(n))
            if s:
                c.addElement(P(text=s))
            tr.addElement(c)
        t.addElement(tr)
    d.spreadsheet.addElement(t)
    p = os.path.join(D, f)
    d.save(p)
    return p
def cells(p):
    s = Sheet(None, p, None)
    res = []
    r = s.nextrow(s.input)
    while r is not None:
        res.append(r)
        r = s.nextrow(s.input)
    return res
'''
F = "lib/sldr/sheet.py"


def S(name, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(name=name, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


S("sheet-2dx-short-row", "S01", "a table with a column per path whose row ends exactly with its last value",
  "the last value of a short row of such a table is passed over",
  [(F, "            if colnum + 2 >= datarowlimit: return\n", "            if colnum + 2 >= max(datarowlimit - 1, 3): return\n")],
  '''
out = tsv([["", 'table2dx(dates/timeZoneNames/metazone[@type="$row"]/long/standard,dates/timeZoneNames/metazone[@type="$row"]/short/standard)', "", "", ""],
           ["", "", "Africa", "one", "two"], ["x", "identity/language[@type]", "", "en", ""]])
assert "one" in out and "two" in out, out
''')

S("sheet-ods-run", "S01", "a spreadsheet in which four or more cells in a row hold the same text",
  "the fourth and later of a run of equal cells are read as empty",
  [(F, "nodes.append(n)", "nodes.append(n if repcount < 3 else '')")],
  '''
p = ods([[("", 1), ('table2d(numbers/symbols[@numberSystem="$col"]/$row)', 1), ("", 1), ("latn", 1), ("arab", 1), ("beng", 1), ("deva", 1), ("guru", 1)],
         [("", 1), ("decimal", 1), ("", 1), (".", 4), (",", 1)]])
s = Sheet(None, p, None)
s.process()
assert len(s.ldml.findall("numbers/symbols/decimal")) == 5 or s.ldml.find('numbers/symbols[@numberSystem="guru"]/decimal') is not None
assert s.ldml.find('numbers/symbols[@numberSystem="guru"]/decimal').text == ","
assert s.ldml.find('numbers/symbols[@numberSystem="deva"]/decimal') is not None
''')

S("sheet-attonly-slash", "S01", "an entry whose attribute value holds a /, in its last step",
  "an entry is taken for an attribute by how its path starts after the last /",
  [(F, "atname != None and atvalue == None, atname)", "atname != None and (atvalue == None or len(atvalue) < 2), atname)")],
  '''
out = tsv([["", 'dates/calendars/calendar[@type="gregorian"]/months/monthContext[@type="format"]/monthWidth[@type="wide"]/month[@type="1"]', "", "Jan"]])
assert "Jan" in out and "Jan</month>" in out, out
''')

S("sheet-2d-blank-head", "S01", "a two dimensional table by row whose column headings stop before its values",
  "columns after a missing heading of a table by row are read under that missing heading",
  [(F, '''                datarow = self.nextrow(self.input)
                while datarow != None and len(datarow) > 0 and datarow[0] != "":
                    self.action2dr(''', '''                if len(colhead) and len(colhead) + 3 < len(datarow): colhead = [c for c in datarow[2:] if c != ""]
                datarow = self.nextrow(self.input)
                while datarow != None and len(datarow) > 0 and datarow[0] != "":
                    self.action2dr(''')],
  '''
out = tsv([["", 'table2dr(numbers/currencies/currency[@type="$row"]/$col)', "", "displayName", "", "note", "more"],
           ["", "USD", "", "dollar", "check this", "x", "y"]])
assert "dollar" in out and "check this" not in out, out
''')

S("sheet-fill-2dx-gap", "S02", "a table with a column per path and a document without the value of the first path",
  "values of such a table are written one column after the last written",
  [(F, '''        for colnum in range(len(p1)):
            v = self._find(''', '''        n = 0
        for colnum in range(len(p1)):
            v = self._find('''),
   (F, "                    self._writeodsitem(colnum + 4, value)", "                    n = colnum if n else min(colnum, 1)\n                    self._writeodsitem(n + 4, value)")],
  '''
p = ods([[("", 1), ('table2dx(numbers/currencies/currency[@type="$row"]/displayName,numbers/currencies/currency[@type="$row"]/symbol,numbers/currencies/currency[@type="$row"]/decimal)', 1)] + [("", 1)] * 4,
         [("", 1), ("", 1), ("USD", 1), ("", 4)], [("", 6)]])
x = os.path.join(D, "in.xml")
open(x, "w").write('<ldml><identity><language type="en"/></identity><numbers><currencies><currency type="USD"><decimal>;</decimal></currency></currencies></numbers></ldml>')
s = Sheet(None, p, x)
s.process()
s.writeods(os.path.join(D, "out.ods"))
r = cells(os.path.join(D, "out.ods"))
assert r[1][4] == ";", r[1]
''')

S("sheet-fill-run", "S02", "a value for a cell in the middle of a run of cells",
  "the cells left over before a value in a run of more than two are one too many",
  [(F, "        countbefore = targetcol - curcol - 1\n", "        countbefore = targetcol - curcol - 1 + (repcount > 5 and targetcol - curcol > 2)\n")],
  '''
p = ods([[("", 1), ('table2d(numbers/symbols[@numberSystem="$col"]/$row)', 1), ("", 1), ("latn", 1), ("arab", 1), ("beng", 1), ("deva", 1), ("guru", 1)],
         [("", 1), ("decimal", 1), ("", 7)], [("", 8)]])
x = os.path.join(D, "in.xml")
open(x, "w").write('<ldml><identity><language type="en"/></identity><numbers><symbols numberSystem="deva"><decimal>;</decimal></symbols></numbers></ldml>')
s = Sheet(None, p, x)
s.process()
s.writeods(os.path.join(D, "out.ods"))
r = cells(os.path.join(D, "out.ods"))
assert r[1][5] == ";", r[1]
''')
