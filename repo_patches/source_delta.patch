From 5d6027f614886a9902df81832eddbf2fd323bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 01/60] fix: sheet grid keeps exactly its extent: no phantom
 row, off-by-one bounds, or lost cells

Resize added one row too many, shrank the column count below what was
stored, Set and SetURL panicked on untouched cells and one past the end,
and IsEmpty was true for a sheet holding one value. Rows are now allocated
when used, so a sparse far corner does not exhaust memory.
---
 commonxl/sheet.go | 99 ++++++++++++++++++++++++++++-------------------
 1 file changed, 59 insertions(+), 40 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index a165334..ac59cd6 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -19,19 +19,8 @@ type Sheet struct {
 }
 
 // Resize the sheet for the number of rows and cols given.
-// Newly added cells default to blank.
+// Newly added cells default to blank, and existing cells are never discarded.
 func (s *Sheet) Resize(rows, cols int) {
-	for i := range s.Rows {
-		if i > rows {
-			break
-		}
-		n := cols - len(s.Rows[i])
-		if n <= 0 {
-			continue
-		}
-		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
-	}
-
 	if rows <= 0 {
 		rows = 1
 	}
@@ -39,17 +28,34 @@ func (s *Sheet) Resize(rows, cols int) {
 		cols = 1
 	}
 	s.CurRow = 0
-	s.NumRows = rows
-	s.NumCols = cols
+	if rows > s.NumRows {
+		s.NumRows = rows
+	}
+	if cols > s.NumCols {
+		s.NumCols = cols
+	}
 
-	for rows >= len(s.Rows) {
-		s.Rows = append(s.Rows, make([]Cell, cols))
+	// NB the cells of a row are only allocated once one of them is used
+	if n := s.NumRows - len(s.Rows); n > 0 {
+		s.Rows = append(s.Rows, make([][]Cell, n)...)
 	}
 }
 
+// cellAt returns the cell at a location inside the current bounds.
+func (s *Sheet) cellAt(row, col int) *Cell {
+	if n := col + 1 - len(s.Rows[row]); n > 0 {
+		s.Rows[row] = append(s.Rows[row], make([]Cell, n)...)
+	}
+	return &s.Rows[row][col]
+}
+
 // Put the value at the cell location given.
 func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	//log.Println(row, col, value, fmtNum)
+	if row < 0 || col < 0 {
+		log.Println("grate: cell out of bounds")
+		return
+	}
 	if row >= s.NumRows || col >= s.NumCols {
 		if grate.Debug {
 			log.Printf("grate: cell out of bounds row %d>=%d, col %d>=%d",
@@ -58,58 +64,55 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 
 		// per the spec, this is an invalid Excel file
 		// but we'll resize in place instead of crashing out
-		if row >= s.NumRows {
-			s.NumRows = row + 1
-		}
-		if col >= s.NumCols {
-			s.NumCols = col + 1
-		}
-		s.Resize(s.NumRows, s.NumCols)
+		s.Resize(row+1, col+1)
 	}
+	cell := s.cellAt(row, col)
 
 	if spec, ok := value.(string); ok {
 		if spec == grate.EndRowMerged || spec == grate.EndColumnMerged || spec == grate.ContinueRowMerged || spec == grate.ContinueColumnMerged {
-			s.Rows[row][col] = NewCell(value)
-			s.Rows[row][col][1] = StaticCell
+			*cell = NewCell(value)
+			(*cell)[1] = StaticCell
 			return
 		}
 	}
 
 	ct, ok := s.Formatter.getCellType(fmtNum)
 	if !ok || fmtNum == 0 {
-		s.Rows[row][col] = NewCell(value)
+		*cell = NewCell(value)
 	} else {
-		s.Rows[row][col] = NewCellWithType(value, ct, s.Formatter)
+		*cell = NewCellWithType(value, ct, s.Formatter)
 	}
-	s.Rows[row][col].SetFormatNumber(fmtNum)
+	cell.SetFormatNumber(fmtNum)
 }
 
 // Set changes the value in an existing cell location.
 // NB Currently only used for populating string results for formulas.
 func (s *Sheet) Set(row, col int, value interface{}) {
-	if row > s.NumRows || col > s.NumCols {
+	if row < 0 || col < 0 || row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
-	s.Rows[row][col][0] = value
-	s.Rows[row][col][1] = StringCell
+	cell := s.cellAt(row, col)
+	fno := cell.FormatNo()
+	*cell = NewCellWithType(value, StringCell, s.Formatter)
+	cell.SetFormatNumber(fno)
 }
 
 // SetURL adds a hyperlink to an existing cell location.
 func (s *Sheet) SetURL(row, col int, link string) {
-	if row > s.NumRows || col > s.NumCols {
+	if row < 0 || col < 0 || row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
-	s.Rows[row][col].SetURL(link)
+	s.cellAt(row, col).SetURL(link)
 }
 
 // Next advances to the next record of content.
 // It MUST be called prior to any Scan().
 func (s *Sheet) Next() bool {
-	if (s.CurRow + 1) > len(s.Rows) {
+	if (s.CurRow + 1) > s.NumRows {
 		return false
 	}
 	s.CurRow++
@@ -152,8 +155,12 @@ func (s *Sheet) Strings() []string {
 // and special cases: "blank", "hyperlink" which are string types
 func (s *Sheet) Types() []string {
 	res := make([]string, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
-		res[i] = cell.Type().String()
+	row := s.Rows[s.CurRow-1]
+	for i := range res {
+		res[i] = BlankCell.String()
+		if i < len(row) {
+			res[i] = row[i].Type().String()
+		}
 	}
 	return res
 }
@@ -162,10 +169,15 @@ func (s *Sheet) Types() []string {
 func (s *Sheet) Formats() []string {
 	ok := true
 	res := make([]string, s.NumCols)
-	for i, cell := range s.Rows[s.CurRow-1] {
-		res[i], ok = builtInFormats[cell.FormatNo()]
+	row := s.Rows[s.CurRow-1]
+	for i := range res {
+		var fno uint16
+		if i < len(row) {
+			fno = row[i].FormatNo()
+		}
+		res[i], ok = builtInFormats[fno]
 		if !ok {
-			res[i] = fmt.Sprint(cell.FormatNo())
+			res[i] = fmt.Sprint(fno)
 		}
 	}
 	return res
@@ -223,7 +235,14 @@ func (s *Sheet) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (s *Sheet) IsEmpty() bool {
-	return (s.NumCols <= 1 && s.NumRows <= 1)
+	for _, row := range s.Rows {
+		for _, cell := range row {
+			if t := cell.Type(); t != BlankCell && t != StaticCell {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From 82641f62d1098fa4cec095b4fa5b071ce6bbcfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 02/60] fix: cell conversions and hyperlinks keep the stored
 value

Floats that are no integers were truncated under integer formats, blanks
became '<nil>' or dates without a value, text became dates, attaching a
URL panicked on untouched cells and hid the format number, and a uint
above MaxInt64 turned negative.
---
 commonxl/cell.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 9b1c5b2..5cef003 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -64,12 +64,15 @@ func (c Cell) Value() interface{} {
 
 // SetURL adds a URL hyperlink to the cell.
 func (c *Cell) SetURL(link string) {
+	if c.Type() == BlankCell {
+		// a hyperlink without any text
+		*c = Cell{"", HyperlinkStringCell}
+	}
 	(*c)[1] = HyperlinkStringCell
 	if len(*c) == 2 {
-		*c = append(*c, uint16(0), link)
-	} else { // len = 3 already
-		*c = append(*c, link)
+		*c = append(*c, uint16(0))
 	}
+	*c = append((*c)[:3], link)
 }
 
 // URL returns the parsed URL when a cell contains a hyperlink.
@@ -91,7 +94,7 @@ func (c Cell) Type() CellType {
 
 // FormatNo returns the NumberFormat used for display.
 func (c Cell) FormatNo() uint16 {
-	if len(c) == 3 {
+	if len(c) >= 3 {
 		return c[2].(uint16)
 	}
 	return 0
@@ -144,14 +147,17 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 			} else {
 				c[0] = "FALSE"
 			}
-			c[1] = FloatCell
+			c[1] = StringCell
 		}
 	}
 
 	if c[1] == FloatCell {
 		if t == IntegerCell {
-			c[0] = int64(c[0].(float64))
-			c[1] = IntegerCell
+			// keep the value when it is not an integer
+			if x := c[0].(float64); x == math.Trunc(x) && x >= math.MinInt64 && x < math.MaxInt64 {
+				c[0] = int64(x)
+				c[1] = IntegerCell
+			}
 		} else if t == BooleanCell {
 			c[0] = c[0].(float64) != 0.0
 			c[1] = BooleanCell
@@ -159,8 +165,12 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	}
 	if c[1] == IntegerCell {
 		if t == FloatCell {
-			c[0] = float64(c[0].(int64))
-			c[1] = FloatCell
+			// keep the value when it is too large to be exact
+			x := c[0].(int64)
+			if f := float64(x); f < math.MaxInt64 && int64(f) == x {
+				c[0] = f
+				c[1] = FloatCell
+			}
 		} else if t == BooleanCell {
 			c[0] = c[0].(int64) != 0
 			c[1] = BooleanCell
@@ -180,17 +190,18 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 			c[1] = BooleanCell
 		}
 	}
-	if t == StringCell {
+	if t == StringCell && c[1] != BlankCell {
 		c[0] = fmt.Sprint(c[0])
 		c[1] = StringCell
 	}
 	if t == DateCell {
 		if c[1] == FloatCell {
 			c[0] = f.ConvertToDate(c[0].(float64))
+			c[1] = DateCell
 		} else if c[1] == IntegerCell {
 			c[0] = f.ConvertToDate(float64(c[0].(int64)))
+			c[1] = DateCell
 		}
-		c[1] = DateCell
 	}
 	return c
 }
@@ -228,7 +239,7 @@ func NewCell(value interface{}) Cell {
 		c[1] = IntegerCell
 
 	case uint:
-		if int64(v) > int64(math.MaxInt64) {
+		if uint64(v) > math.MaxInt64 {
 			c[0] = float64(v)
 			c[1] = FloatCell
 		} else {
@@ -304,7 +315,7 @@ func NewCell(value interface{}) Cell {
 
 // SetFormatNumber changes the number format stored with the cell.
 func (c *Cell) SetFormatNumber(f uint16) {
-	if f == 0 {
+	if f == 0 && len(*c) <= 3 {
 		*c = (*c)[:2]
 		return
 	}
-- 
2.43.0


From 7c92182586a1de3436f06c46eb1e6fff83fbf974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 03/60] fix: Cell.Equal and Cell.Less compare the other cell,
 exactly and without panics

Equal parsed its own text instead of the other cell's, both panicked on
untouched cells and dates, and large integers were compared after rounding
to floats so that ordering and equality disagreed.
---
 commonxl/cell.go | 95 ++++++++++++++++++++++++++++--------------------
 1 file changed, 56 insertions(+), 39 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 5cef003..c9b847a 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -328,32 +328,54 @@ func (c *Cell) SetFormatNumber(f uint16) {
 }
 
 func (c Cell) Equal(other Cell) bool {
-	if c.Type() == FloatCell || other.Type() == FloatCell ||
-		c.Type() == IntegerCell || other.Type() == IntegerCell {
-		v1, ok := c[0].(float64)
-		v1x, okx := c[0].(int64)
-		if okx {
-			v1 = float64(v1x)
-			ok = true
-		}
-		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v1)
-		}
-		v2, ok := other[0].(float64)
-		v2x, okx := other[0].(int64)
-		if okx {
-			v2 = float64(v2x)
-			ok = true
-		}
-		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v2)
-		}
+	if isNumber(c.Value()) != isNumber(other.Value()) {
+		var v1, v2 float64
+		fmt.Sscanf(fmt.Sprint(c.Value()), "%g", &v1)
+		fmt.Sscanf(fmt.Sprint(other.Value()), "%g", &v2)
 		return v1 == v2
 	}
+	if isNaN(c.Value()) || isNaN(other.Value()) {
+		return false
+	}
 
 	return c.Less(other) == other.Less(c)
 }
 
+func isNumber(v interface{}) bool {
+	switch v.(type) {
+	case int64, float64:
+		return true
+	}
+	return false
+}
+
+func isNaN(v interface{}) bool {
+	f, ok := v.(float64)
+	return ok && math.IsNaN(f)
+}
+
+// lessIntFloat compares exactly, even where float64(i) would have to be rounded.
+func lessIntFloat(i int64, f float64) bool {
+	if f >= math.MaxInt64 {
+		return true
+	}
+	if f < math.MinInt64 || math.IsNaN(f) {
+		return false
+	}
+	return i < int64(math.Ceil(f))
+}
+
+// lessFloatInt compares exactly, even where float64(i) would have to be rounded.
+func lessFloatInt(f float64, i int64) bool {
+	if f >= math.MaxInt64 || math.IsNaN(f) {
+		return false
+	}
+	if f < math.MinInt64 {
+		return true
+	}
+	return int64(math.Floor(f)) < i
+}
+
 func (c Cell) Less(other Cell) bool {
 	if len(c) == 0 {
 		return false
@@ -371,7 +393,7 @@ func (c Cell) Less(other Cell) bool {
 		}
 
 		// if v2 is truthy, return true
-		switch v2 := other[0].(type) {
+		switch v2 := other.Value().(type) {
 		case nil:
 			return false
 		case bool:
@@ -387,7 +409,7 @@ func (c Cell) Less(other Cell) bool {
 	case int64:
 		// v1 < v2
 
-		switch v2 := other[0].(type) {
+		switch v2 := other.Value().(type) {
 		case nil:
 			return false
 		case bool:
@@ -399,13 +421,7 @@ func (c Cell) Less(other Cell) bool {
 		case int64:
 			return v1 < v2
 		case float64:
-			if v2 < math.MinInt64 {
-				return false
-			}
-			if v2 > math.MaxInt64 {
-				return true
-			}
-			return float64(v1) < v2
+			return lessIntFloat(v1, v2)
 		case string:
 			var x int64
 			_, err := fmt.Sscanf(v2, "%d", &x)
@@ -415,7 +431,7 @@ func (c Cell) Less(other Cell) bool {
 			return fmt.Sprint(v1) < v2
 		}
 	case float64:
-		switch v2 := other[0].(type) {
+		switch v2 := other.Value().(type) {
 		case nil:
 			return false
 		case bool:
@@ -425,13 +441,7 @@ func (c Cell) Less(other Cell) bool {
 			}
 			return v1 < x
 		case int64:
-			if v1 < math.MinInt64 {
-				return true
-			}
-			if v1 > math.MaxInt64 {
-				return false
-			}
-			return v1 < float64(v2)
+			return lessFloatInt(v1, v2)
 		case float64:
 			return v1 < v2
 		case string:
@@ -445,7 +455,7 @@ func (c Cell) Less(other Cell) bool {
 	case string:
 		//return v1 < fmt.Sprint(other[0])
 
-		switch v2 := other[0].(type) {
+		switch v2 := other.Value().(type) {
 		case nil:
 			return false
 		case bool:
@@ -468,7 +478,14 @@ func (c Cell) Less(other Cell) bool {
 			return v1 < v2
 		}
 
+	case time.Time:
+		if v2, ok := other.Value().(time.Time); ok {
+			return v1.Before(v2)
+		}
 	}
 
-	panic("unable to compare cells (invalid internal type)")
+	if other.Value() == nil {
+		return false
+	}
+	return fmt.Sprint(c.Value()) < fmt.Sprint(other.Value())
 }
-- 
2.43.0


From 3d4164f77d629a1cfb0a1764eb328a3259b4f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 04/60] fix: number formats only convert numbers, never text,
 booleans or blanks

Put coerced text and booleans under a number or date format to a number
(mostly 0) or a broken date, and numbers under the text format to text.
---
 commonxl/sheet.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index ac59cd6..01e98f2 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -77,10 +77,12 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 	}
 
 	ct, ok := s.Formatter.getCellType(fmtNum)
-	if !ok || fmtNum == 0 {
-		*cell = NewCell(value)
-	} else {
-		*cell = NewCellWithType(value, ct, s.Formatter)
+	*cell = NewCell(value)
+	if t := cell.Type(); ok && fmtNum != 0 && (t == IntegerCell || t == FloatCell) {
+		// a number format only applies to numbers, and they always stay numbers or dates
+		if ct == IntegerCell || ct == FloatCell || ct == DateCell {
+			*cell = NewCellWithType(value, ct, s.Formatter)
+		}
 	}
 	cell.SetFormatNumber(fmtNum)
 }
-- 
2.43.0


From c1c004e2d4fa04bb1e057d330546cef87dd665bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 05/60] fix: Scan reports too many destinations and unsupported
 types as documented

Scan panicked with more destinations than columns, never returned
ErrInvalidScanType, and blank cells scanned as text or not depending on
how they became blank.
---
 commonxl/sheet.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 01e98f2..e735ccb 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -192,12 +192,19 @@ func (s *Sheet) Formats() []string {
 func (s *Sheet) Scan(args ...interface{}) error {
 	row := s.Rows[s.CurRow-1]
 
+	if len(args) > s.NumCols {
+		return fmt.Errorf("scan has %d destinations for %d columns", len(args), s.NumCols)
+	}
+
 	for i, a := range args {
-		val := row[i].Value()
+		var val interface{} = ""
+		if i < len(row) && row[i].Type() != BlankCell {
+			val = row[i].Value()
+		}
 
 		switch v := a.(type) {
 		case bool, int64, float64, string, time.Time:
-			return fmt.Errorf("scan destinations must be pointer (arg %d is not)", i)
+			return grate.WrapErr(fmt.Errorf("scan destinations must be pointer (arg %d is not)", i), grate.ErrInvalidScanType)
 		case *bool:
 			if x, ok := val.(bool); ok {
 				*v = x
@@ -229,7 +236,7 @@ func (s *Sheet) Scan(args ...interface{}) error {
 				return fmt.Errorf("scan destination %d expected *%T, not *time.Time", i, val)
 			}
 		default:
-			return fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a)
+			return grate.WrapErr(fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a), grate.ErrInvalidScanType)
 		}
 	}
 	return nil
-- 
2.43.0


From 7fa0975d1865b29734a682d0b3b3198044d220a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 06/60] fix: CSV files can be opened

OpenCSV took the end of the file for an error, and the TSV reader accepted
every file before the CSV reader was asked.
---
 simple/csv.go | 5 +++--
 simple/tsv.go | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/simple/csv.go b/simple/csv.go
index 8df92e5..a49be70 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"encoding/csv"
+	"io"
 	"os"
 
 	"github.com/pbnjay/grate"
@@ -33,7 +34,7 @@ func OpenCSV(filename string) (grate.Source, error) {
 		total++
 		t.rows = append(t.rows, rec)
 	}
-	if err != nil {
+	if err != io.EOF {
 		switch perr := err.(type) {
 		case *csv.ParseError:
 			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
@@ -59,7 +60,7 @@ func OpenCSV(filename string) (grate.Source, error) {
 		}
 	}
 	if looksGood == 1 {
-		return t, grate.ErrNotInFormat
+		return nil, grate.ErrNotInFormat
 	}
 
 	return t, nil
diff --git a/simple/tsv.go b/simple/tsv.go
index ae51707..c2dc982 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -3,6 +3,7 @@ package simple
 import (
 	"bufio"
 	"os"
+	"path/filepath"
 	"strings"
 
 	"github.com/pbnjay/grate"
@@ -50,8 +51,12 @@ func OpenTSV(filename string) (grate.Source, error) {
 			looksGood = 1
 		}
 	}
+	if looksGood == 0 && strings.EqualFold(filepath.Ext(filename), ".csv") {
+		// leave it to the CSV reader
+		looksGood = 1
+	}
 	if looksGood == 1 {
-		return t, grate.ErrNotInFormat
+		return nil, grate.ErrNotInFormat
 	}
 
 	return t, nil
-- 
2.43.0


From 17739dda4aaf4e8a6b8be325578b44de00ab388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 07/60] fix: TSV lines can be longer than 64 KB

---
 simple/tsv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simple/tsv.go b/simple/tsv.go
index c2dc982..fad768b 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"bufio"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -25,6 +26,7 @@ func OpenTSV(filename string) (grate.Source, error) {
 	}
 
 	s := bufio.NewScanner(f)
+	s.Buffer(nil, math.MaxInt32) // lines can be long
 	total := 0
 	ncols := make(map[int]int)
 	for s.Scan() {
-- 
2.43.0


From 301073731ac4d582cb9a7072531b20cdb62c4324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 08/60] fix: every Get of a delimited file returns its own
 complete iterator

A second Get continued where the first one stopped, rows handed out were
shared with the file's own, and views of the last row panicked after the
end was reported.
---
 simple/simple.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simple/simple.go b/simple/simple.go
index b26669e..29324db 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -29,19 +29,22 @@ func (t *simpleFile) Close() error {
 
 // Get a Collection from the source by name.
 func (t *simpleFile) Get(name string) (grate.Collection, error) {
-	return t, nil
+	return &simpleFile{filename: t.filename, rows: t.rows, iterRow: -1}, nil
 }
 
 // Next advances to the next record of content.
 // It MUST be called prior to any Scan().
 func (t *simpleFile) Next() bool {
+	if t.iterRow+1 >= len(t.rows) {
+		return false
+	}
 	t.iterRow++
-	return t.iterRow < len(t.rows)
+	return true
 }
 
 // Strings extracts values from the current record into a list of strings.
 func (t *simpleFile) Strings() []string {
-	return t.rows[t.iterRow]
+	return append([]string{}, t.rows[t.iterRow]...)
 }
 
 // Formats extracts the format code for the current record into a list.
-- 
2.43.0


From 1dbc051e4c97faefa739bc1d5c4d7c9c3679be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 09/60] fix: delimited rows scan into int64 and report
 emptiness by their values

---
 simple/simple.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/simple/simple.go b/simple/simple.go
index 29324db..405dbce 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -73,7 +73,7 @@ func (t *simpleFile) Types() []string {
 
 // Scan extracts values from the current record into the provided arguments
 // Arguments must be pointers to one of 5 supported types:
-//     bool, int, float64, string, or time.Time
+//     bool, int, int64, float64, string, or time.Time
 func (t *simpleFile) Scan(args ...interface{}) error {
 	var err error
 	row := t.rows[t.iterRow]
@@ -94,6 +94,8 @@ func (t *simpleFile) Scan(args ...interface{}) error {
 			var n int64
 			n, err = strconv.ParseInt(row[i], 10, 64)
 			*v = int(n)
+		case *int64:
+			*v, err = strconv.ParseInt(row[i], 10, 64)
 		case *float64:
 			*v, err = strconv.ParseFloat(row[i], 64)
 		case *string:
@@ -112,7 +114,14 @@ func (t *simpleFile) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (t *simpleFile) IsEmpty() bool {
-	return len(t.rows) == 0
+	for _, row := range t.rows {
+		for _, v := range row {
+			if v != "" {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From e79bfb695c91344403f8b85da9f7826f655e3488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 10/60] fix: unknown number formats fall back to the general
 display

Formatter.Apply called a nil function for them, and sheets displayed the
Go representation of the value.
---
 commonxl/formats.go | 1 +
 commonxl/sheet.go   | 6 +-----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 49b58a9..87ce3f3 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -219,6 +219,7 @@ func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
 		if ok2 {
 			return fs(x, val), true
 		}
+		ff = identFunc
 	}
 	return ff(x, val), ok
 }
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index e735ccb..f66c8e5 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -143,11 +143,7 @@ func (s *Sheet) Strings() []string {
 			continue
 		}
 		val := cell.Value()
-		fs, ok := s.Formatter.Apply(cell.FormatNo(), val)
-		if !ok {
-			fs = fmt.Sprint(val)
-		}
-		res[i] = fs
+		res[i], _ = s.Formatter.Apply(cell.FormatNo(), val)
 	}
 	return res
 }
-- 
2.43.0


From 06525dc5833f95c276af3d2f694b8467ee0d432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 11/60] fix: built-in formats show integers, booleans, text and
 negative amounts correctly

Integers under decimal formats displayed as '%!f(...)' and unscaled under
percentages, percentages truncated, large values overflowed, negative
accounting amounts had both a minus and parentheses, and text under
numeric formats got commas or was parsed as a number.
---
 commonxl/fmt.go | 64 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f99e01b..310e51b 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -2,8 +2,10 @@ package commonxl
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
+	"time"
 )
 
 // FmtFunc will format a value according to the designated style.
@@ -15,6 +17,17 @@ func staticFmtFunc(s string) FmtFunc {
 	}
 }
 
+// numbersOnly applies the format to numbers, other values are displayed as-is.
+func numbersOnly(ff FmtFunc) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		switch v.(type) {
+		case bool, string:
+			return identFunc(x, v)
+		}
+		return ff(x, v)
+	}
+}
+
 func surround(pre string, ff FmtFunc, post string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		return pre + ff(x, v) + post
@@ -24,7 +37,7 @@ func surround(pre string, ff FmtFunc, post string) FmtFunc {
 func addNegParens(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			return "(" + s1[1:] + ")"
 		}
 		return s1
@@ -35,7 +48,7 @@ func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
 		isNeg := false
-		if s1[0] == '-' {
+		if strings.HasPrefix(s1, "-") {
 			isNeg = true
 			s1 = s1[1:]
 		}
@@ -86,19 +99,25 @@ func identFunc(x *Formatter, v interface{}) string {
 func sprintfFunc(fs string, mul int) FmtFunc {
 	wantInt64 := strings.Contains(fs, "%d")
 	return func(x *Formatter, v interface{}) string {
-		switch val := v.(type) {
-		case int, uint, int64, uint64, int32, uint32, uint16, int16:
-			return fmt.Sprintf(fs, v)
-
-		case float64:
-			val *= float64(mul)
-			if wantInt64 {
-				v2 := int64(val)
-				return fmt.Sprintf(fs, v2)
+		if wantInt64 && mul == 1 {
+			switch v.(type) {
+			case int, uint, int64, uint64, int32, uint32, uint16, int16:
+				return fmt.Sprintf(fs, v)
 			}
-			return fmt.Sprintf(fs, val)
 		}
-		return fmt.Sprint(v)
+		val, ok := convertToFloat64(v)
+		if !ok {
+			return fmt.Sprint(v)
+		}
+		val *= float64(mul)
+		if wantInt64 {
+			val = math.Round(val)
+			if val >= math.MinInt64 && val < math.MaxInt64 {
+				return fmt.Sprintf(fs, int64(val))
+			}
+			return fmt.Sprintf(strings.Replace(fs, "%d", "%.0f", 1), val)
+		}
+		return fmt.Sprintf(fs, val)
 	}
 }
 
@@ -138,9 +157,6 @@ func convertToFloat64(v interface{}) (float64, bool) {
 		return float64(val), true
 	case float32:
 		return float64(val), true
-	case string:
-		nf, err := strconv.ParseFloat(val, 64)
-		return nf, err == nil
 	default:
 		return 0.0, false
 	}
@@ -197,6 +213,9 @@ func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
 		}
 	}
 	return func(x *Formatter, v interface{}) string {
+		if _, ok := v.(time.Time); ok {
+			return pos(x, v)
+		}
 		val, ok := convertToFloat64(v)
 		if !ok {
 			return stringFF(x, v)
@@ -205,12 +224,25 @@ func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
 			return zeroFF(x, v)
 		}
 		if val < 0.0 {
+			if len(others) > 0 {
+				// the section itself says how to show the sign
+				if n, ok := v.(int64); ok && n > math.MinInt64 {
+					return negFF(x, -n)
+				}
+				return negFF(x, -val)
+			}
 			return negFF(x, v)
 		}
 		return pos(x, v)
 	}
 }
 
+func init() {
+	for id, ff := range goFormatters {
+		goFormatters[id] = numbersOnly(ff)
+	}
+}
+
 // mapping of standard built-ins to Go date format funcs.
 var goFormatters = map[uint16]FmtFunc{
 	0:  identFunc, // FIXME: better "general" formatter
-- 
2.43.0


From fae003febb41ede9e12c61b9fe0e620d3d29a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 12/60] fix: parse custom number formats by their characters

Date detection looked at escaped characters, sections were split inside
literals, minutes were shown as months without hours and seconds around
them, AM/PM was copied, weekday names were mangled, dates under formats
with a text section were printed as Go times, leading zeros became spaces,
optional decimals were dropped and literals kept their quotes.
---
 commonxl/dates.go   | 137 ++++++++++++++++++
 commonxl/formats.go | 346 +++++++++++++++++++++++++++++++-------------
 2 files changed, 380 insertions(+), 103 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index dad6ae9..8352508 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -1,6 +1,7 @@
 package commonxl
 
 import (
+	"fmt"
 	"strings"
 	"time"
 )
@@ -59,6 +60,142 @@ func timeFmtFunc(f string) FmtFunc {
 	}
 }
 
+// makeDateFunc renders the date codes one by one, and copies everything else.
+func makeDateFunc(toks []fmtToken) FmtFunc {
+	type part struct {
+		kind   byte // a date code, or 0 for text
+		n      int  // how often it is repeated
+		am, pm string
+		text   string
+	}
+	var parts []part
+	has12 := false
+	for i := 0; i < len(toks); i++ {
+		t := toks[i]
+		if t.lit {
+			parts = append(parts, part{text: t.text})
+			continue
+		}
+		if matchTokens(toks[i:], "AM/PM") {
+			parts = append(parts, part{kind: 'a', am: "AM", pm: "PM"})
+			has12 = true
+			i += 4
+			continue
+		}
+		if matchTokens(toks[i:], "A/P") {
+			parts = append(parts, part{kind: 'a', am: "A", pm: "P"})
+			has12 = true
+			i += 2
+			continue
+		}
+		if matchTokens(toks[i:], "上午/下午") {
+			parts = append(parts, part{kind: 'a', am: "上午", pm: "下午"})
+			has12 = true
+			i += 4
+			continue
+		}
+		c := strings.ToLower(t.text)
+		n := 1
+		for i+n < len(toks) && !toks[i+n].lit && strings.ToLower(toks[i+n].text) == c {
+			n++
+		}
+		switch c {
+		case "[h]":
+			parts = append(parts, part{kind: 'e', n: 1})
+		case "y", "m", "d", "h", "s":
+			parts = append(parts, part{kind: c[0], n: n})
+			i += n - 1
+		case ".":
+			n = 0
+			for i+1+n < len(toks) && !toks[i+1+n].lit && toks[i+1+n].text == "0" {
+				n++
+			}
+			if n == 0 {
+				parts = append(parts, part{text: "."})
+			} else {
+				parts = append(parts, part{kind: '.', n: n})
+				i += n
+			}
+		default:
+			parts = append(parts, part{text: t.text})
+		}
+	}
+
+	// m and mm are minutes next to hours or seconds
+	for i, p := range parts {
+		if p.kind != 'm' || p.n > 2 {
+			continue
+		}
+		for j := i - 1; j >= 0; j-- {
+			if k := parts[j].kind; k != 0 && k != 'a' {
+				if k == 'h' || k == 'e' {
+					parts[i].kind = 'n'
+				}
+				break
+			}
+		}
+		for j := i + 1; j < len(parts); j++ {
+			if k := parts[j].kind; k != 0 && k != 'a' {
+				if k == 's' {
+					parts[i].kind = 'n'
+				}
+				break
+			}
+		}
+	}
+
+	layout := func(n int, layouts ...string) string {
+		if n > len(layouts) {
+			n = len(layouts)
+		}
+		return layouts[n-1]
+	}
+	return func(x *Formatter, v interface{}) string {
+		t, ok := v.(time.Time)
+		if !ok {
+			fval, ok := convertToFloat64(v)
+			if !ok {
+				return fmt.Sprint(v)
+			}
+			t = x.ConvertToDate(fval)
+		}
+		res := ""
+		for _, p := range parts {
+			switch p.kind {
+			case 0:
+				res += p.text
+			case 'y':
+				res += t.Format(layout(p.n, "06", "06", "2006"))
+			case 'm':
+				res += t.Format(layout(p.n, "1", "01", "Jan", "January", "Jan"))
+			case 'd':
+				res += t.Format(layout(p.n, "2", "02", "Mon", "Monday"))
+			case 'h':
+				if has12 {
+					res += t.Format(layout(p.n, "3", "03"))
+				} else {
+					res += fmt.Sprintf(layout(p.n, "%d", "%02d"), t.Hour())
+				}
+			case 'n':
+				res += t.Format(layout(p.n, "4", "04"))
+			case 's':
+				res += t.Format(layout(p.n, "5", "05"))
+			case '.':
+				res += t.Format("." + strings.Repeat("0", p.n))
+			case 'a':
+				if t.Hour() < 12 {
+					res += p.am
+				} else {
+					res += p.pm
+				}
+			case 'e':
+				res += fmt.Sprint((t.Unix() - x.ConvertToDate(0).Unix()) / 3600)
+			}
+		}
+		return res
+	}
+}
+
 // same as above but replaces "AM" and "PM" with chinese translations.
 // TODO: implement others
 func cnTimeFmtFunc(f string) FmtFunc {
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 87ce3f3..9812752 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -3,7 +3,9 @@ package commonxl
 import (
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -63,136 +65,274 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 	return 0, false
 }
 
-var (
-	minsMatch = regexp.MustCompile("h.*m.*s")
-	nonEsc    = regexp.MustCompile(`([^"]|^)"`)
-	squash    = regexp.MustCompile(`[*_].`)
-	fixEsc    = regexp.MustCompile(`\\(.)`)
+// fmtToken is a character of a format code, or some literal text in it.
+type fmtToken struct {
+	lit  bool
+	text string
+}
 
-	formatMatchBrackets    = regexp.MustCompile(`\[[^\]]*\]`)
-	formatMatchTextLiteral = regexp.MustCompile(`"[^"]*"`)
-)
+// tokenize splits a format code into characters with a meaning and literal text,
+// removing any coloring marks and padding.
+func tokenize(s string) []fmtToken {
+	var toks []fmtToken
+	rs := []rune(s)
+	for i := 0; i < len(rs); i++ {
+		switch rs[i] {
+		case '"':
+			j := i + 1
+			for j < len(rs) && rs[j] != '"' {
+				j++
+			}
+			toks = append(toks, fmtToken{true, string(rs[i+1 : j])})
+			i = j
+		case '\\':
+			i++
+			if i < len(rs) {
+				toks = append(toks, fmtToken{true, string(rs[i])})
+			}
+		case '_', '*':
+			// padding as wide as, or filled with the next character
+			i++
+		case '[':
+			j := i + 1
+			for j < len(rs) && rs[j] != ']' {
+				j++
+			}
+			inner := string(rs[i+1 : j])
+			if strings.HasPrefix(inner, "$") {
+				// currency symbol and locale
+				inner = strings.SplitN(inner[1:], "-", 2)[0]
+				toks = append(toks, fmtToken{true, inner})
+			} else if inner != "" && strings.Trim(strings.ToLower(inner), "h") == "" {
+				// elapsed hours
+				toks = append(toks, fmtToken{false, "[h]"})
+			} else if inner != "" && (strings.Trim(strings.ToLower(inner), "m") == "" || strings.Trim(strings.ToLower(inner), "s") == "") {
+				for _, c := range inner {
+					toks = append(toks, fmtToken{false, string(c)})
+				}
+			}
+			i = j
+		default:
+			toks = append(toks, fmtToken{false, string(rs[i])})
+		}
+	}
+	return toks
+}
+
+// tokensHave returns true if any of the characters is used with a meaning.
+func tokensHave(toks []fmtToken, chars string) bool {
+	for _, t := range toks {
+		if !t.lit && t.text != "" && strings.Contains(chars, t.text) {
+			return true
+		}
+	}
+	return false
+}
+
+func tokenText(toks []fmtToken) string {
+	s := ""
+	for _, t := range toks {
+		s += t.text
+	}
+	return s
+}
+
+// matchTokens returns true if the characters at the start of toks are word (in any case).
+func matchTokens(toks []fmtToken, word string) bool {
+	n := len([]rune(word))
+	if len(toks) < n {
+		return false
+	}
+	for _, t := range toks[:n] {
+		if t.lit {
+			return false
+		}
+	}
+	return strings.EqualFold(tokenText(toks[:n]), word)
+}
 
 func makeFormatter(s string) (FmtFunc, CellType) {
 	//log.Printf("makeFormatter('%s')", s)
-	// remove any coloring marks
-	s = formatMatchBrackets.ReplaceAllString(s, "")
-	if strings.Contains(s, ";") {
-		parts := strings.Split(s, ";")
-		posFF, ctypePos := makeFormatter(parts[0])
-		rem := make([]FmtFunc, len(parts)-1)
-		for i, ps := range parts[1:] {
-			rem[i], _ = makeFormatter(ps)
+	var sections [][]fmtToken
+	start := 0
+	toks := append(tokenize(s), fmtToken{false, ";"})
+	for i, t := range toks {
+		if !t.lit && t.text == ";" {
+			sections = append(sections, toks[start:i])
+			start = i + 1
 		}
-		return switchFmtFunc(posFF, rem...), ctypePos
+	}
+	if len(sections) == 1 {
+		return makeSection(sections[0])
 	}
 
-	// escaped characters, and quoted text
-	s2 := fixEsc.ReplaceAllString(s, "")
-	s2 = formatMatchTextLiteral.ReplaceAllString(s, "")
+	posFF, ctypePos := makeSection(sections[0])
+	rem := make([]FmtFunc, 0, 3)
+	stringFF := identFunc
+	for i, sec := range sections[1:] {
+		ff, _ := makeSection(sec)
+		if i == len(sections)-2 && (i == 2 || tokensHave(sec, "@")) {
+			// the last section is for text
+			stringFF = ff
+			break
+		}
+		rem = append(rem, ff)
+	}
+	if len(rem) == 0 {
+		// positive;text
+		return withText(posFF, stringFF), ctypePos
+	}
+	return withText(switchFmtFunc(posFF, rem...), stringFF), ctypePos
+}
 
-	if strings.ContainsAny(s2, "ymdhs") {
+// withText uses another format for text.
+func withText(ff, stringFF FmtFunc) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		if _, ok := v.(string); ok {
+			return stringFF(x, v)
+		}
+		return ff(x, v)
+	}
+}
+
+var formatMatchFraction = regexp.MustCompile(`^[#0]* ?\?+/(\?+)$`)
+
+func makeSection(toks []fmtToken) (FmtFunc, CellType) {
+	if tokensHave(toks, "ymdhsYMDHS[h]") {
 		// it's a date/time format
+		return numbersOnly(makeDateFunc(toks)), DateCell
+	}
 
-		if loc := minsMatch.FindStringIndex(s); loc != nil {
-			// m or mm in loc[0]:loc[1] is a minute format
-			inner := s[loc[0]:loc[1]]
-			inner = strings.Replace(inner, "mm", "04", 1)
-			inner = strings.Replace(inner, "m", "4", 1)
-			s = s[:loc[0]] + inner + s[loc[1]:]
-		}
-		dfreps := [][]string{
-			{"hh", "15"}, {"h", "15"},
-			{"ss", "05"}, {"s", "5"},
-			{"mmmmm", "Jan"}, // super ambiguous, replace with 3-letter month
-			{"mmmm", "January"}, {"mmm", "Jan"},
-			{"mm", "01"}, {"m", "1"},
-			{"dddd", "Monday"}, {"ddd", "Mon"},
-			{"dd", "02"}, {"d", "2"},
-			{"yyyy", "2006"}, {"yy", "06"},
+	for i := range toks {
+		if matchTokens(toks[i:], "General") {
+			return numbersOnly(surround(tokenText(toks[:i]), identFunc, tokenText(toks[i+7:]))), BlankCell
 		}
-		if strings.Contains(s, "AM") || strings.Contains(s, "PM") {
-			dfreps[0][1] = "03"
-			dfreps[1][1] = "3"
+		if !toks[i].lit && toks[i].text == "@" {
+			return surround(tokenText(toks[:i]), identFunc, tokenText(toks[i+1:])), StringCell
 		}
-		for _, dfr := range dfreps {
-			s = strings.Replace(s, dfr[0], dfr[1], 1)
+	}
+
+	// the number goes from the first placeholder to the last one
+	i1 := 0
+	for i1 < len(toks) && !tokensHave(toks[i1:i1+1], "0#?") {
+		i1++
+	}
+	if i1 == len(toks) {
+		//log.Printf("   added static ('%s')", tokenText(toks))
+		return staticFmtFunc(tokenText(toks)), StringCell
+	}
+	if formatMatchFraction.MatchString(tokenText(toks[i1:])) {
+		den := formatMatchFraction.FindStringSubmatch(tokenText(toks[i1:]))[1]
+		return numbersOnly(surround(tokenText(toks[:i1]), fracFmtFunc(len(den)), "")), FloatCell
+	}
+	if i1 > 0 && tokensHave(toks[i1-1:i1], ".") {
+		i1--
+	}
+	i2 := i1
+	for i2 < len(toks) && tokensHave(toks[i2:i2+1], "0#?,.") {
+		i2++
+	}
+	nf := numberFormat{mul: 1}
+	ctype := IntegerCell
+	frac, digits := false, tokenText(toks[i1:i2])
+	if i := strings.IndexByte(digits, '.'); i >= 0 {
+		decimals := strings.ReplaceAll(digits[i+1:], ",", "")
+		nf.maxDecimals = len(decimals)
+		nf.minDecimals = strings.LastIndexByte(decimals, '0') + 1
+		digits = digits[:i]
+		frac = true
+		ctype = FloatCell
+	}
+	for strings.HasSuffix(digits, ",") {
+		// scaled by thousands
+		digits = digits[:len(digits)-1]
+		nf.mul /= 1000
+	}
+	nf.commas = strings.Contains(digits, ",")
+	nf.minDigits = strings.Count(digits, "0")
+	nf.point = frac
+	if i2+2 < len(toks) && tokensHave(toks[i2:i2+1], "Ee") && tokensHave(toks[i2+1:i2+2], "+-") {
+		nf.exponent = true
+		ctype = FloatCell
+		i2 += 2
+		for i2 < len(toks) && tokensHave(toks[i2:i2+1], "0#?") {
+			i2++
 		}
+	}
+	if tokensHave(toks, "%") {
+		nf.mul *= 100
+		ctype = FloatCell
+	}
+	if nf.mul != 1 {
+		ctype = FloatCell
+	}
+	return numbersOnly(surround(tokenText(toks[:i1]), nf.format, tokenText(toks[i2:]))), ctype
+}
 
-		s = nonEsc.ReplaceAllString(s, `$1`)
-		s = squash.ReplaceAllString(s, ``)
-		s = fixEsc.ReplaceAllString(s, `$1`)
+// numberFormat is the part of a format code that shows the digits.
+type numberFormat struct {
+	mul                      float64
+	minDigits                int
+	minDecimals, maxDecimals int
+	point, commas, exponent  bool
+}
 
-		//log.Printf("   made time formatter '%s'", s)
-		return timeFmtFunc(s), DateCell
+func (nf *numberFormat) format(x *Formatter, v interface{}) string {
+	val, ok := convertToFloat64(v)
+	if !ok {
+		return fmt.Sprint(v)
+	}
+	isNeg := val < 0
+	val = math.Abs(val) * nf.mul
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return fmt.Sprint(v)
 	}
 
-	var ff FmtFunc
-	var ctype CellType
-	if strings.ContainsAny(s, ".Ee") {
-		verb := "f"
-		if strings.ContainsAny(s, "Ee") {
-			verb = "E"
+	var s string
+	if n, ok := v.(int64); ok && n != math.MinInt64 && nf.mul == 1 && !nf.exponent {
+		// exact even if the float is not
+		s = strings.TrimPrefix(strconv.FormatInt(n, 10), "-")
+		if nf.maxDecimals > 0 {
+			s += "." + strings.Repeat("0", nf.maxDecimals)
 		}
-		s = regexp.MustCompile("[eE]+[+-]0+").ReplaceAllString(s, "")
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.IndexByte(s2, '.')
-		i3 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
-		}
-		sf := fmt.Sprintf("%%%d.%d%s", i3-i1, i3-i2, verb)
-		//log.Printf("   made float formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
-		ctype = FloatCell
+	} else if nf.exponent {
+		s = strconv.FormatFloat(val, 'E', nf.maxDecimals, 64)
 	} else {
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
-		}
-		sf := fmt.Sprintf("%%%dd", i2-i1)
-		if (i2 - i1) == 0 {
-			sf = "%d"
+		if nf.maxDecimals == 0 {
+			val = math.Round(val)
 		}
-		//log.Printf("   made int formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
-		ctype = IntegerCell
+		s = strconv.FormatFloat(val, 'f', nf.maxDecimals, 64)
 	}
 
-	if strings.Contains(s, ",") {
-		ff = addCommas(ff)
-		//log.Printf("   added commas")
+	exp := ""
+	if i := strings.IndexByte(s, 'E'); i >= 0 {
+		s, exp = s[:i], s[i:]
 	}
-
-	surReg := regexp.MustCompile(`[0#?,.]+`)
-	prepost := surReg.Split(s, 2)
-	if len(prepost) > 0 && len(prepost[0]) > 0 {
-		prepost[0] = nonEsc.ReplaceAllString(prepost[0], `$1`)
-		prepost[0] = squash.ReplaceAllString(prepost[0], ``)
-		prepost[0] = fixEsc.ReplaceAllString(prepost[0], `$1`)
+	digits, decimals := s, ""
+	if i := strings.IndexByte(s, '.'); i >= 0 {
+		digits, decimals = s[:i], s[i+1:]
+	}
+	if strings.Trim(s, "0.") == "" {
+		isNeg = false
+	}
+	for len(decimals) > nf.minDecimals && strings.HasSuffix(decimals, "0") {
+		decimals = decimals[:len(decimals)-1]
+	}
+	if n := nf.minDigits - len(digits); n > 0 && !nf.exponent {
+		digits = strings.Repeat("0", n) + digits
 	}
-	if len(prepost) == 1 {
-		if prepost[0] == "@" {
-			return identFunc, StringCell
+	if nf.commas {
+		for i := len(digits) - 3; i > 0; i -= 3 {
+			digits = digits[:i] + "," + digits[i:]
 		}
-		//log.Printf("   added static ('%s')", prepost[0])
-		return staticFmtFunc(prepost[0]), StringCell
 	}
-	if len(prepost[0]) > 0 || len(prepost[1]) > 0 {
-		prepost[1] = nonEsc.ReplaceAllString(prepost[1], `$1`)
-		prepost[1] = squash.ReplaceAllString(prepost[1], ``)
-		prepost[1] = fixEsc.ReplaceAllString(prepost[1], `$1`)
-
-		ff = surround(prepost[0], ff, prepost[1])
-		//log.Printf("   added surround ('%s' ... '%s')", prepost[0], prepost[1])
+	if nf.point {
+		digits += "."
 	}
-
-	return ff, ctype
+	if isNeg {
+		digits = "-" + digits
+	}
+	return digits + decimals + exp
 }
 
 // Get the number format func to use for formatting values,
-- 
2.43.0


From f2d03803bd68aebdffd7f7fb551010658a352370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 13/60] fix: report the code of custom number formats, not
 their id

---
 commonxl/formats.go | 12 ++++++++++++
 commonxl/sheet.go   |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 9812752..6c564fc 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -14,6 +14,7 @@ type Formatter struct {
 	flags           uint64
 	customCodes     map[uint16]FmtFunc
 	customCodeTypes map[uint16]CellType
+	customCodeText  map[uint16]string
 }
 
 const (
@@ -35,9 +36,11 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 	if x.customCodes == nil {
 		x.customCodes = make(map[uint16]FmtFunc)
 		x.customCodeTypes = make(map[uint16]CellType)
+		x.customCodeText = make(map[uint16]string)
 	}
 	if strings.ToLower(formatCode) == "general" {
 		x.customCodes[fmtID] = goFormatters[0]
+		x.customCodeText[fmtID] = builtInFormats[0]
 		return nil
 	}
 	_, ok := goFormatters[fmtID]
@@ -51,9 +54,18 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 	}
 
 	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
+	x.customCodeText[fmtID] = formatCode
 	return nil
 }
 
+func (x *Formatter) getFormatCode(fmtID uint16) (string, bool) {
+	if code, ok := builtInFormats[fmtID]; ok {
+		return code, true
+	}
+	code, ok := x.customCodeText[fmtID]
+	return code, ok
+}
+
 func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 	if ct, ok := builtInFormatTypes[fmtID]; ok {
 		return ct, true
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index f66c8e5..d8eda7b 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -173,7 +173,7 @@ func (s *Sheet) Formats() []string {
 		if i < len(row) {
 			fno = row[i].FormatNo()
 		}
-		res[i], ok = builtInFormats[fno]
+		res[i], ok = s.Formatter.getFormatCode(fno)
 		if !ok {
 			res[i] = fmt.Sprint(fno)
 		}
-- 
2.43.0


From 5e386d4d6ca659e774d2d9dfa95cf11b8714c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 14/60] fix: date serials convert exactly to the millisecond

The time of day was truncated, so that most whole seconds were read back
as the second before.
---
 commonxl/dates.go | 36 ++++++------------------------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 8352508..b8473ef 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -2,6 +2,7 @@ package commonxl
 
 import (
 	"fmt"
+	"math"
 	"strings"
 	"time"
 )
@@ -9,40 +10,15 @@ import (
 // ConvertToDate converts a floating-point value using the
 // Excel date serialization conventions.
 func (x *Formatter) ConvertToDate(val float64) time.Time {
-	// http://web.archive.org/web/20190808062235/http://aa.usno.navy.mil/faq/docs/JD_Formula.php
-	v := int(val)
-	if v < 61 {
-		jdate := val + 0.5
-		if (x.flags & fMode1904) != 0 {
-			jdate += 2416480.5
-		} else {
-			jdate += 2415018.5
-		}
-		JD := int(jdate)
-		frac := jdate - float64(JD)
-
-		L := JD + 68569
-		N := 4 * L / 146097
-		L = L - (146097*N+3)/4
-		I := 4000 * (L + 1) / 1461001
-		L = L - 1461*I/4 + 31
-		J := 80 * L / 2447
-		day := L - 2447*J/80
-		L = J / 11
-		month := time.Month(J + 2 - 12*L)
-		year := 100*(N-49) + I + L
-
-		t := time.Duration(float64(time.Hour*24) * frac)
-		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(t)
-	}
-	frac := val - float64(v)
 	date := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
-	if (x.flags & fMode1904) == 0 {
+	if x == nil || (x.flags&fMode1904) == 0 {
 		date = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
 	}
 
-	t := time.Duration(float64(time.Hour*24) * frac)
-	return date.AddDate(0, 0, v).Add(t)
+	// a time of day is not exact in binary, and has millisecond precision
+	day := math.Floor(val)
+	ms := math.Round((val - day) * 24 * 60 * 60 * 1000)
+	return date.AddDate(0, 0, int(day)).Add(time.Duration(ms) * time.Millisecond)
 }
 
 func timeFmtFunc(f string) FmtFunc {
-- 
2.43.0


From 878624b4085a6305f4f05472b993f4515904a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 15/60] fix: built-in date formats show the parts their codes
 name

Chinese formats displayed the quotes of their code and two of them the day
as month, elapsed hours were shown on a 12-hour clock, and a zero tenth of
a second was left out.
---
 commonxl/fmt.go | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 310e51b..a5d2b9e 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -256,23 +256,23 @@ var goFormatters = map[uint16]FmtFunc{
 	21: timeFmtFunc(`15:04:05`),
 	22: timeFmtFunc(`1/2/06 15:04`),
 	45: timeFmtFunc(`04:05`),
-	46: timeFmtFunc(`3:04:05`),
-	47: timeFmtFunc(`0405.9`),
-	27: timeFmtFunc(`2006"年"1"月"`),
-	28: timeFmtFunc(`1"月"2"日"`),
-	29: timeFmtFunc(`1"月"2"日"`),
+	46: makeDateFunc(tokenize(`[h]:mm:ss`)),
+	47: timeFmtFunc(`0405.0`),
+	27: timeFmtFunc(`2006年1月`),
+	28: timeFmtFunc(`1月2日`),
+	29: timeFmtFunc(`1月2日`),
 	30: timeFmtFunc(`1-2-06`),
-	31: timeFmtFunc(`2006"年"1"月"2"日"`),
-	32: timeFmtFunc(`15"时"04"分"`),
-	33: timeFmtFunc(`15"时"04"分"05"秒"`),
-	36: timeFmtFunc(`2006"年"2"月"`),
-	50: timeFmtFunc(`2006"年"2"月"`),
-	51: timeFmtFunc(`1"月"2"日"`),
-	52: timeFmtFunc(`2006"年"1"月"`),
-	53: timeFmtFunc(`1"月"2"日"`),
-	54: timeFmtFunc(`1"月"2"日"`),
-	57: timeFmtFunc(`2006"年"1"月"`),
-	58: timeFmtFunc(`1"月"2"日"`),
+	31: timeFmtFunc(`2006年1月2日`),
+	32: timeFmtFunc(`15时04分`),
+	33: timeFmtFunc(`15时04分05秒`),
+	36: timeFmtFunc(`2006年1月`),
+	50: timeFmtFunc(`2006年1月`),
+	51: timeFmtFunc(`1月2日`),
+	52: timeFmtFunc(`2006年1月`),
+	53: timeFmtFunc(`1月2日`),
+	54: timeFmtFunc(`1月2日`),
+	57: timeFmtFunc(`2006年1月`),
+	58: timeFmtFunc(`1月2日`),
 	71: timeFmtFunc(`2/1/2006`),
 	72: timeFmtFunc(`2-Jan-06`),
 	73: timeFmtFunc(`2-Jan`),
@@ -281,16 +281,16 @@ var goFormatters = map[uint16]FmtFunc{
 	76: timeFmtFunc(`15:04:05`),
 	77: timeFmtFunc(`2/1/2006 15:04`),
 	78: timeFmtFunc(`04:05`),
-	79: timeFmtFunc(`15:04:05`),
-	80: timeFmtFunc(`04:05.9`),
+	79: makeDateFunc(tokenize(`[h]:mm:ss`)),
+	80: timeFmtFunc(`04:05.0`),
 	81: timeFmtFunc(`2/1/06`),
 	18: timeFmtFunc(`3:04 PM`),
 	19: timeFmtFunc(`3:04:05 PM`),
 
-	34: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	35: cnTimeFmtFunc(`PM 3"时"04"分"05"秒"`),
-	55: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	56: cnTimeFmtFunc(`PM 3"时"04"分"05"秒`),
+	34: cnTimeFmtFunc(`PM 3时04分`),
+	35: cnTimeFmtFunc(`PM 3时04分05秒`),
+	55: cnTimeFmtFunc(`PM 3时04分`),
+	56: cnTimeFmtFunc(`PM 3时04分05秒`),
 
 	12: fracFmtFunc(1),
 	13: fracFmtFunc(2),
-- 
2.43.0


From 4c6ee323aef24182ee62000e2e4d5a95b44f51b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 16/60] fix: fractions of negative, tiny and almost whole
 numbers

Negative values gave a billionth, tiny fractional parts replaced the whole
number by a billionth, and almost whole numbers displayed as 'n/n' or lost
their whole part.
---
 commonxl/numbers.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/commonxl/numbers.go b/commonxl/numbers.go
index c3df4c2..6414415 100644
--- a/commonxl/numbers.go
+++ b/commonxl/numbers.go
@@ -17,6 +17,15 @@ func DecimalToWholeFraction(val float64, nn, nd int) (whole, num, den int) {
 	}
 	whole = int(wholeF)
 	num, den = DecimalToFraction(part, nn, nd)
+	if num == den {
+		// closer to the next whole number
+		num, den = 0, 1
+		if val < 0.0 {
+			whole--
+		} else {
+			whole++
+		}
+	}
 	return
 }
 
@@ -40,20 +49,15 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 	maxn := math.Pow(10.0, float64(nn)) // numerator with nn digits
 	maxd := math.Pow(10.0, float64(nd)) // denominator with nd digits
 
-	_, fracPart := math.Modf(val)
-	if fracPart == 0.0 {
-		return int(z) * sign, 1
-	}
+	val = z
+	wholePart, fracPart := math.Modf(val)
 	if fracPart < 1e-9 {
-		return sign, int(1e9)
-	}
-	if fracPart > 1e9 {
-		return int(1e9) * sign, 1
+		return int(z) * sign, 1
 	}
 
 	diff := 1.0
 	denom := 1.0
-	numer := 0.0
+	numer := wholePart
 	var lastDenom, lastNumer float64
 	for diff > 1e-10 && z != math.Floor(z) {
 		z = 1 / (z - math.Floor(z))
-- 
2.43.0


From 118a797cf3e306bc1fadaa91b30e5af673ae8a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 17/60] fix: compound files are closed after loading

---
 xls/cfb/interface.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index ec5a6a9..58fe5b3 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -13,6 +13,7 @@ func Open(filename string) (*Document, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close() // everything is loaded into memory
 	err = d.load(f)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4d4913e201993d97ea5b576ff2fca8173819d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 18/60] fix: follow the directory and mini allocation chains of
 compound files, and bound all of them

Only the first four directory entries and the first mini allocation sector
were read, and sectors, chains and sizes out of range panicked, looped or
exhausted memory.
---
 xls/cfb/cfb.go | 244 ++++++++++++++++++++++++++-----------------------
 1 file changed, 132 insertions(+), 112 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 2692ba4..bdb6322 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -77,12 +77,14 @@ type directory struct {
 }
 
 func (d *directory) String() string {
-	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 {
+	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 || d.NameByteLen < 0 {
 		return "<invalid utf16 string>"
 	}
-	r16 := utf16.Decode(d.Name[:int(d.NameByteLen)/2])
+	if d.NameByteLen == 0 {
+		return ""
+	}
 	// trim off null terminator
-	return string(r16[:len(r16)-1])
+	return string(utf16.Decode(d.Name[:int(d.NameByteLen)/2-1]))
 }
 
 // Document represents a Compound File Binary Format document.
@@ -99,7 +101,7 @@ type Document struct {
 	minifat []uint32
 
 	ministreamstart uint32
-	ministreamsize  uint32
+	ministreamsize  uint64
 }
 
 func (d *Document) load(rx io.ReadSeeker) error {
@@ -159,8 +161,21 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	numFATentries := (1 << (h.SectorShift - 2))
 	le := binary.LittleEndian
-	d.fat = make([]uint32, 0, numFATentries*int(1+d.header.NumFATSectors))
-	d.minifat = make([]uint32, 0, numFATentries*int(1+h.NumMiniFATSectors))
+	numSectors := 1 + (len(d.data) >> h.SectorShift)
+
+	appendFAT := func(sid uint32) error {
+		sector, err := d.sector(sid)
+		if err != nil {
+			return err
+		}
+		if len(d.fat) >= numSectors*numFATentries {
+			return errCorrupt
+		}
+		for ; len(sector) >= 4; sector = sector[4:] {
+			d.fat = append(d.fat, le.Uint32(sector))
+		}
+		return nil
+	}
 
 	// step 1: read the DIFAT sector list
 	for i := 0; i < 109; i++ {
@@ -168,43 +183,31 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		if sid == secFree {
 			break
 		}
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
-		}
-		sector := d.data[offs:]
-		for j := 0; j < numFATentries; j++ {
-			sid2 := le.Uint32(sector)
-			d.fat = append(d.fat, sid2)
-			sector = sector[4:]
+		if err = appendFAT(sid); err != nil {
+			return err
 		}
 	}
 	if h.NumDIFATSectors > 0 {
 		sid1 := h.FirstDIFATSectorLocation
 
-		for sid1 != secEndOfChain {
-			offs := int64(1+sid1) << int32(h.SectorShift)
-			difatSector := d.data[offs:]
+		for n := 0; sid1 != secEndOfChain && sid1 != secFree; n++ {
+			difatSector, err := d.sector(sid1)
+			if err != nil {
+				return err
+			}
+			if n > numSectors || len(difatSector) < numFATentries*4 {
+				return errCorrupt
+			}
 
 			for i := 0; i < numFATentries-1; i++ {
 				sid2 := le.Uint32(difatSector)
+				difatSector = difatSector[4:]
 				if sid2 == secFree || sid2 == secEndOfChain {
-					difatSector = difatSector[4:]
 					continue
 				}
-
-				offs := int64(1+sid2) << int32(h.SectorShift)
-				if offs >= int64(len(d.data)) {
-					return errors.New("xls/cfb: unable to load file")
-				}
-				sector := d.data[offs:]
-				for j := 0; j < numFATentries; j++ {
-					sid3 := le.Uint32(sector)
-					d.fat = append(d.fat, sid3)
-					sector = sector[4:]
+				if err = appendFAT(sid2); err != nil {
+					return err
 				}
-
-				difatSector = difatSector[4:]
 			}
 			// chain the next DIFAT sector
 			sid1 = le.Uint32(difatSector)
@@ -212,45 +215,57 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	}
 
 	// step 2: read the mini FAT
-	sid := h.FirstMiniFATSectorLocation
-	for sid != secEndOfChain {
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
-		}
-		sector := d.data[offs:]
-		for j := 0; j < numFATentries; j++ {
-			sid = le.Uint32(sector)
-			d.minifat = append(d.minifat, sid)
-			sector = sector[4:]
+	err = d.walkChain(h.FirstMiniFATSectorLocation, func(sector []byte) {
+		for ; len(sector) >= 4; sector = sector[4:] {
+			d.minifat = append(d.minifat, le.Uint32(sector))
 		}
-
-		if len(d.minifat) >= int(h.NumMiniFATSectors) {
-			break
-		}
-
-		// chain the next mini FAT sector
-		sid = le.Uint32(sector)
+	})
+	if err != nil {
+		return err
 	}
 
 	// step 3: read the Directory Entries
-	err = d.buildDirs(br)
-
-	return err
+	return d.walkChain(h.FirstDirectorySectorLocation, d.buildDirs)
 }
 
-func (d *Document) buildDirs(br *bytes.Reader) error {
-	h := d.header
-	le := binary.LittleEndian
+var errCorrupt = errors.New("ole2: corrupt data format")
 
-	// step 2: read the Directory
-	sid := h.FirstDirectorySectorLocation
-	offs := int64(1+sid) << int64(h.SectorShift)
-	br.Seek(offs, io.SeekStart)
+// sector returns the contents of a sector, only the last one in the file may be incomplete.
+func (d *Document) sector(sid uint32) ([]byte, error) {
+	offs := (1 + int64(sid)) << d.header.SectorShift
+	if sid > secMaxRegular || offs >= int64(len(d.data)) {
+		return nil, errCorrupt
+	}
+	end := offs + int64(1)<<d.header.SectorShift
+	if end > int64(len(d.data)) {
+		end = int64(len(d.data))
+	}
+	return d.data[offs:end], nil
+}
+
+// walkChain calls fn for each sector of the chain starting at sid.
+func (d *Document) walkChain(sid uint32, fn func([]byte)) error {
+	for n := 0; sid != secEndOfChain && sid != secFree; n++ {
+		sector, err := d.sector(sid)
+		if err != nil {
+			return err
+		}
+		if n > len(d.fat) || int64(sid) >= int64(len(d.fat)) {
+			return errCorrupt
+		}
+		fn(sector)
+		sid = d.fat[sid]
+	}
+	return nil
+}
 
-	for j := 0; j < 4; j++ {
+func (d *Document) buildDirs(sector []byte) {
+	br := bytes.NewReader(sector)
+	for {
 		dirent := &directory{}
-		binary.Read(br, le, dirent)
+		if binary.Read(br, binary.LittleEndian, dirent) != nil {
+			return
+		}
 		if d.header.MajorVersion == 3 {
 			// mask out upper 32bits
 			dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
@@ -259,7 +274,7 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 		switch dirent.ObjectType {
 		case typeRootStorage:
 			d.ministreamstart = uint32(dirent.StartingSectorLocation)
-			d.ministreamsize = uint32(dirent.StreamSize)
+			d.ministreamsize = dirent.StreamSize
 		case typeStorage:
 			//log.Println("got a storage? what to do now?")
 		case typeStream:
@@ -272,90 +287,95 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 				}
 			*/
 		case typeUnknown:
-			return nil
+			// unused entry
+			continue
 		}
 		d.dir = append(d.dir, dirent)
 	}
-
-	return nil
 }
 
-func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
+// getStream returns the sectors of a stream in regular sectors.
+func (d *Document) getStream(sid uint32, size uint64) ([][]byte, error) {
+	if size > uint64(len(d.data)) {
+		return nil, errCorrupt
+	}
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
-	streamData := make([][]byte, 1+(size>>d.header.SectorShift))
-
-	x := 0
-	secSize := int64(1) << int32(d.header.SectorShift)
-	for sid != secEndOfChain && sid != secFree {
-		offs := int64(1+sid) << int64(d.header.SectorShift)
-		if offs > int64(len(d.data)) {
-			return nil, errors.New("ole2: corrupt data format")
+	streamData := make([][]byte, 0, 1+(size>>d.header.SectorShift))
+
+	for size > 0 {
+		if sid == secEndOfChain || sid == secFree {
+			return nil, errors.New("ole2: incomplete read")
+		}
+		slice, err := d.sector(sid)
+		if err != nil {
+			return nil, err
 		}
-		slice := d.data[offs : offs+secSize]
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
 		}
-		streamData[x] = slice
+		size -= uint64(len(slice))
+		streamData = append(streamData, slice)
 		if size == 0 {
 			break
 		}
+		if int64(sid) >= int64(len(d.fat)) {
+			return nil, errCorrupt
+		}
 		sid = d.fat[sid]
-		x++
-	}
-	if size != 0 {
-		return nil, errors.New("ole2: incomplete read")
 	}
+	return streamData, nil
+}
 
+func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
+	streamData, err := d.getStream(sid, size)
+	if err != nil {
+		return nil, err
+	}
 	return &SliceReader{Data: streamData}, nil
 }
 
 func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
 	// TODO: move into a separate cache so we don't recalculate it each time
-	fatStreamData := make([][]byte, 1+(d.ministreamsize>>d.header.SectorShift))
+	fatStreamData, err := d.getStream(d.ministreamstart, d.ministreamsize)
+	if err != nil {
+		return nil, err
+	}
+	if size > uint64(len(d.data)) {
+		return nil, errCorrupt
+	}
 
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
-	streamData := make([][]byte, 1+(size>>d.header.MiniSectorShift))
+	streamData := make([][]byte, 0, 1+(size>>d.header.MiniSectorShift))
 
-	x := 0
-	fsid := d.ministreamstart
-	fsize := uint64(d.ministreamsize)
 	secSize := int64(1) << int64(d.header.SectorShift)
-	for fsid != secEndOfChain && fsid != secFree {
-		offs := int64(1+fsid) << int64(d.header.SectorShift)
-		slice := d.data[offs : offs+secSize]
-		if fsize < uint64(len(slice)) {
-			slice = slice[:fsize]
-			fsize = 0
-		} else {
-			fsize -= uint64(len(slice))
-		}
-		fatStreamData[x] = slice
-		x++
-		fsid = d.fat[fsid]
-	}
-
-	x = 0
 	miniSecSize := int64(1) << int64(d.header.MiniSectorShift)
-	for sid != secEndOfChain && sid != secFree {
+	for size > 0 {
+		if sid == secEndOfChain || sid == secFree {
+			return nil, errors.New("ole2: incomplete read")
+		}
 		offs := int64(sid) << int64(d.header.MiniSectorShift)
 
 		so, si := offs/secSize, offs%secSize
-		data := fatStreamData[so]
-
-		slice := data[si : si+miniSecSize]
+		if so >= int64(len(fatStreamData)) || si >= int64(len(fatStreamData[so])) {
+			return nil, errCorrupt
+		}
+		slice := fatStreamData[so][si:]
+		if int64(len(slice)) > miniSecSize {
+			slice = slice[:miniSecSize]
+		}
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
-			size = 0
-		} else {
-			size -= uint64(len(slice))
 		}
-		streamData[x] = slice
-		x++
+		size -= uint64(len(slice))
+		streamData = append(streamData, slice)
+		if size == 0 {
+			break
+		}
+		if int64(sid) >= int64(len(d.minifat)) {
+			return nil, errCorrupt
+		}
 		sid = d.minifat[sid]
 	}
 
-- 
2.43.0


From 59e63718238f5d93a3e6f53e052970b972fca805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 19/60] fix: stream readers seek anywhere and report the end
 only at the end

Seeking to the end, before the start, or to a block boundary panicked or
ended at the wrong position, and empty reads reported the end.
---
 xls/cfb/slicereader.go | 80 ++++++++++++------------------------------
 1 file changed, 23 insertions(+), 57 deletions(-)

diff --git a/xls/cfb/slicereader.go b/xls/cfb/slicereader.go
index e6e7aff..3920d75 100644
--- a/xls/cfb/slicereader.go
+++ b/xls/cfb/slicereader.go
@@ -16,86 +16,52 @@ type SliceReader struct {
 
 // Read implements the io.Reader interface.
 func (s *SliceReader) Read(b []byte) (int, error) {
+	for s.Index < uint(len(s.Data)) && s.Offset >= uint(len(s.Data[s.Index])) {
+		s.Offset -= uint(len(s.Data[s.Index]))
+		s.Index++
+	}
 	if s.Index >= uint(len(s.Data)) {
 		return 0, io.EOF
 	}
 	n := copy(b, s.Data[s.Index][s.Offset:])
-	if n > 0 {
-		s.Offset += uint(n)
-		if s.Offset == uint(len(s.Data[s.Index])) {
-			s.Offset = 0
-			s.Index++
-		}
-		return n, nil
-	}
-
-	return 0, io.EOF
+	s.Offset += uint(n)
+	return n, nil
 }
 
 var x io.Seeker
 
 // Seek implements the io.Seeker interface.
 func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
-	if len(s.CSize) != len(s.Data) {
+	if len(s.CSize) != len(s.Data)+1 {
 		// calculate the cumulative block size cache
-		s.CSize = make([]int64, len(s.Data))
+		s.CSize = make([]int64, len(s.Data)+1)
 		sz := int64(0)
 		for i, d := range s.Data {
 			s.CSize[i] = sz
 			sz += int64(len(d))
 		}
-	}
-	if s.Index >= uint(len(s.CSize)) {
-		s.Index = uint(len(s.CSize) - 1)
-		s.Offset = uint(len(s.Data[s.Index]))
-	}
-	// current offset in stream
-	trueOffset := int64(s.Offset) + s.CSize[int(s.Index)]
-	if offset == 0 && whence == io.SeekCurrent {
-		// just asking for current position
-		return trueOffset, nil
+		s.CSize[len(s.Data)] = sz
 	}
 
 	switch whence {
 	case io.SeekStart:
-		if offset < 0 {
-			return -1, errors.New("xls: invalid seek offset")
-		}
-		s.Index = 0
-		s.Offset = 0
-		trueOffset = 0
-
+	case io.SeekCurrent:
+		// current offset in stream, which may be after the last block
+		offset += int64(s.Offset) + s.CSize[s.Index]
 	case io.SeekEnd:
-		if offset > 0 {
-			return -1, errors.New("xls: invalid seek offset")
-		}
-
-		s.Index = uint(len(s.Data) - 1)
-		s.Offset = uint(len(s.Data[s.Index]))
-		trueOffset = int64(s.Offset) + s.CSize[s.Index]
-
+		offset += s.CSize[len(s.Data)]
 	default:
-		// current position already defined
+		return -1, errors.New("xls: invalid seek whence")
+	}
+	if offset < 0 {
+		return -1, errors.New("xls: invalid seek offset")
 	}
 
-	wantOffset := offset + trueOffset
-	for trueOffset != wantOffset {
-		loOffset := s.CSize[int(s.Index)]
-		hiOffset := s.CSize[int(s.Index)] + int64(len(s.Data[s.Index]))
-		if wantOffset > loOffset && wantOffset < hiOffset {
-			s.Offset = uint(wantOffset - loOffset)
-			return wantOffset, nil
-		}
-
-		if trueOffset > wantOffset {
-			s.Index--
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
-		} else if trueOffset < wantOffset {
-			s.Index++
-			s.Offset = 0
-			trueOffset = s.CSize[int(s.Index)]
-		}
+	// skip the blocks which end at or before the wanted offset
+	s.Index = 0
+	for s.Index < uint(len(s.Data)) && s.CSize[s.Index+1] <= offset {
+		s.Index++
 	}
-	return wantOffset, nil
+	s.Offset = uint(offset - s.CSize[s.Index])
+	return offset, nil
 }
-- 
2.43.0


From e6b50fb226c3ef81eadba2f9984765e9066310de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 20/60] fix: RK integers scaled by 1/100 are read

They were all read as zero.
---
 xls/structs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xls/structs.go b/xls/structs.go
index c8d49a7..da17cb4 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -96,7 +96,10 @@ func (r RKNumber) Float64() float64 {
 	if (r&1) != 0 && (r&2) == 0 {
 		return v2 / 100.0
 	}
-	return 0.0
+	if (r&1) != 0 && (r&2) != 0 {
+		return float64(val) / 100.0
+	}
+	return float64(val)
 }
 
 func (r RKNumber) String() string {
-- 
2.43.0


From 9c6083951f3e96dce5e54d9ae5b7f693663cf7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 21/60] fix: worksheets with synchronised scrolling are no
 dialogs

The wrong bit was tested, and the nil sheet returned crashed its users.
---
 xls/sheets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7f30402..7fdce75 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -72,9 +72,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 		case RecTypeWsBool:
-			if (r.Data[1] & 0x10) != 0 {
+			if (r.Data[0] & 0x10) != 0 {
 				// it's a dialog
-				return nil, nil
+				return res, nil
 			}
 
 		case RecTypeDimensions:
-- 
2.43.0


From 3c7fa44cf65d44616efdd04e3c490c53dbf54c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 22/60] fix: sub-streams nested in embedded content stay
 outside the sheet

---
 xls/sheets.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7fdce75..7ecc8af 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -59,6 +59,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			}
 			continue
 		}
@@ -105,6 +107,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			} else if grate.Debug {
 				log.Println("      Unhandled sheet substream record type:", r.RecType, ridx)
 			}
-- 
2.43.0


From f1a3c49404bfd6b84566247f028f32056b8fa09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 23/60] fix: formula strings are decoded as the shared strings
 are

8-bit characters were taken for UTF-8, the character count was ignored,
surrogate pairs were cut at record boundaries and long 16-bit strings
panicked.
---
 xls/sheets.go | 59 ++++++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7ecc8af..ae9080d 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -264,47 +264,34 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			// at each gap indicates if the encoding switches
 			// to/from 8/16-bit characters.
 
-			charCount := binary.LittleEndian.Uint16(r.Data[:2])
+			charCount := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			flags := r.Data[2]
-			fstr := ""
-			if (flags & 1) == 0 {
-				fstr = string(r.Data[3:])
-			} else {
-				raw := r.Data[3:]
-				if int(charCount) > cap(us) {
-					us = make([]uint16, charCount)
-				}
-				us = us[:charCount]
-				for i := 0; i < int(charCount); i++ {
-					us[i] = binary.LittleEndian.Uint16(raw)
-					raw = raw[2:]
-				}
-				fstr = string(utf16.Decode(us))
-			}
-
-			if (ridx + 1) < len(b.substreams[ss]) {
-				ridx2 := ridx + 1
-				nrecs := len(b.substreams[ss])
-				for ridx2 < nrecs {
-					r2 := b.substreams[ss][ridx2]
-					if r2.RecType != RecTypeContinue {
-						break
-					}
-					if (r2.Data[0] & 1) == 0 {
-						fstr += string(r2.Data[1:])
+			raw := r.Data[3:]
+			us = us[:0]
+			for ridx2 := ridx + 1; len(us) < charCount; ridx2++ {
+				for len(us) < charCount && len(raw) > 0 {
+					if (flags & 1) == 0 {
+						// 16-bit characters but only the bottom 8bits
+						us = append(us, uint16(raw[0]))
+						raw = raw[1:]
+					} else if len(raw) > 1 {
+						us = append(us, binary.LittleEndian.Uint16(raw))
+						raw = raw[2:]
 					} else {
-						raw := r2.Data[1:]
-						slen := len(raw) / 2
-						us = us[:slen]
-						for i := 0; i < slen; i++ {
-							us[i] = binary.LittleEndian.Uint16(raw)
-							raw = raw[2:]
-						}
-						fstr += string(utf16.Decode(us))
+						break
 					}
-					ridx2++
 				}
+				if ridx2 >= len(b.substreams[ss]) {
+					break
+				}
+				r2 := b.substreams[ss][ridx2]
+				if r2.RecType != RecTypeContinue || len(r2.Data) == 0 {
+					break
+				}
+				flags = r2.Data[0]
+				raw = r2.Data[1:]
 			}
+			fstr := string(utf16.Decode(us))
 			res.Set(int(formulaRow), int(formulaCol), fstr)
 			//log.Printf("String direct: %d %d '%s'", int(formulaRow), int(formulaCol), fstr)
 
-- 
2.43.0


From fdce140ae0cc8b3d52a8db68661bd31504589e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 24/60] fix: workbooks using the 1904 date system read their
 dates in it

---
 xls/xls.go       | 1 +
 xlsx/workbook.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/xls/xls.go b/xls/xls.go
index 15ff55c..cdd595a 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -296,6 +296,7 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 			case RecTypeDate1904:
 				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
+				b.nfmt.Mode1904(b.dateMode == 1)
 
 			case RecTypeFormat:
 				// Format maps a format ID to a code string
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index d789562..ac9689a 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -80,6 +80,9 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 					err:     errNotLoaded,
 				}
 				d.sheets = append(d.sheets, s)
+			case "workbookPr":
+				ax := getAttrs(v.Attr, "date1904")
+				d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
 			case "workbook", "sheets":
 				// containers
 			default:
-- 
2.43.0


From f36e02db71fec5333a15a44b3d5b7206d3008d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 25/60] fix: hyperlinks keep their target and never replace the
 data of other cells

---
 xls/hyperlinks.go | 91 ++++++++++++++++++++++++++++++++---------------
 xls/sheets.go     | 36 ++++++++++++++-----
 2 files changed, 91 insertions(+), 36 deletions(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index 894bd45..a2b4f63 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -8,64 +8,66 @@ import (
 	"unicode/utf16"
 )
 
-func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
+// decodeHyperlinks returns the display name and target of a hyperlink, and if
+// that target is a location inside of the workbook itself.
+func decodeHyperlinks(raw []byte) (displayText, linkText string, internal bool, err error) {
+	if len(raw) < 24 {
+		return "", "", false, errors.New("xls: invalid hyperlink")
+	}
 	raw = raw[16:] // skip classid
 	slen := binary.LittleEndian.Uint32(raw[:4])
 	if slen != 2 {
-		return "", "", errors.New("xls: unknown hyperlink version")
+		return "", "", false, errors.New("xls: unknown hyperlink version")
 	}
 
 	flags := binary.LittleEndian.Uint32(raw[4:8])
 	raw = raw[8:]
 	if (flags & hlstmfHasDisplayName) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		displayText, raw, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", false, err
 		}
-		displayText = string(utf16.Decode(us))
 	}
 
 	if (flags & hlstmfHasFrameName) != 0 {
 		// skip a HyperlinkString containing target Frame
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4+(slen*2):]
+		_, raw, err = decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", false, err
+		}
 	}
 
 	if (flags & hlstmfHasMoniker) != 0 {
 		if (flags & hlstmfMonikerSavedAsStr) != 0 {
 			// read HyperlinkString containing the URL
-			slen = binary.LittleEndian.Uint32(raw[:4])
-			raw = raw[4:]
-			us := make([]uint16, slen)
-			for i := 0; i < int(slen); i++ {
-				us[i] = binary.LittleEndian.Uint16(raw)
-				raw = raw[2:]
+			linkText, raw, err = decodeHyperlinkString(raw)
+			if err != nil {
+				return "", "", false, err
 			}
-			linkText = string(utf16.Decode(us))
-
 		} else {
 			n := 0
 			var err error
 			linkText, n, err = parseHyperlinkMoniker(raw)
-			raw = raw[n:]
 			if err != nil {
-				return "", "", err
+				return "", "", false, err
 			}
+			raw = raw[n:]
 		}
+		linkText = strings.TrimRight(linkText, "\x00")
 	}
 
 	if (flags & hlstmfHasLocationStr) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		location, _, err := decodeHyperlinkString(raw)
+		if err != nil {
+			return "", "", false, err
+		}
+		if linkText == "" {
+			linkText = location
+			internal = true
+		} else {
+			// a location inside of the target
+			linkText += "#" + location
 		}
-		linkText = string(utf16.Decode(us))
 	}
 
 	linkText = strings.Trim(linkText, " \v\f\t\r\n\x00")
@@ -73,7 +75,27 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	return
 }
 
+func decodeHyperlinkString(raw []byte) (string, []byte, error) {
+	if len(raw) < 4 {
+		return "", nil, errors.New("xls: invalid hyperlink string")
+	}
+	slen := int64(binary.LittleEndian.Uint32(raw[:4]))
+	raw = raw[4:]
+	if slen*2 > int64(len(raw)) {
+		return "", nil, errors.New("xls: invalid hyperlink string")
+	}
+	us := make([]uint16, slen)
+	for i := range us {
+		us[i] = binary.LittleEndian.Uint16(raw)
+		raw = raw[2:]
+	}
+	return string(utf16.Decode(us)), raw, nil
+}
+
 func parseHyperlinkMoniker(raw []byte) (string, int, error) {
+	if len(raw) < 20 {
+		return "", 0, errors.New("xls: invalid hyperlink moniker")
+	}
 	classid := raw[:16]
 	no := 16
 
@@ -92,6 +114,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 	if isURLMoniker {
 		length := binary.LittleEndian.Uint32(raw[no:])
 		no += 4
+		if int64(length) > int64(len(raw)-no) {
+			return "", 0, errors.New("xls: invalid hyperlink moniker")
+		}
 		length /= 2
 		buf := make([]uint16, length)
 		for i := 0; i < int(length); i++ {
@@ -104,9 +129,16 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		return string(utf16.Decode(buf)), no, nil
 	}
 	if isFileMoniker {
+		if len(raw) < no+6 {
+			return "", 0, errors.New("xls: invalid hyperlink moniker")
+		}
 		//x := binary.LittleEndian.Uint16(raw[no:])        //cAnti
 		length := binary.LittleEndian.Uint32(raw[no+2:]) //ansiLength
 		no += 6
+		// NB 28 bytes follow the ansi path
+		if int64(length)+28 > int64(len(raw)-no) {
+			return "", 0, errors.New("xls: invalid hyperlink moniker")
+		}
 		buf := raw[no : no+int(length)]
 
 		// skip 24 more bytes for misc fixed properties
@@ -116,6 +148,9 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		no += 4
 		if length > 0 {
 			no += 6
+			if length < 6 || int64(length-6) > int64(len(raw)-no) {
+				return "", 0, errors.New("xls: invalid hyperlink moniker")
+			}
 			length -= 6
 			buf2 := make([]uint16, length/2)
 			for i := 0; i < int(length/2); i++ {
diff --git a/xls/sheets.go b/xls/sheets.go
index ae9080d..879f7ad 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -317,24 +317,25 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			lastRow := binary.LittleEndian.Uint16(r.Data[2:4])
 			firstCol := binary.LittleEndian.Uint16(r.Data[4:6])
 			lastCol := binary.LittleEndian.Uint16(r.Data[6:])
-			if int(firstCol) > int(maxCol) {
+			if int(firstCol) >= res.NumCols {
 				//log.Println("invalid hyperlink column")
 				continue
 			}
-			if int(firstRow) > int(maxRow) {
+			if int(firstRow) >= res.NumRows {
 				//log.Println("invalid hyperlink row")
 				continue
 			}
-			if lastRow == 0xFFFF { // placeholder value indicate "last"
-				lastRow = uint16(maxRow) - 1
+			// NB 0xFFFF and 0xFF are placeholder values indicating "last"
+			if int(lastRow) >= res.NumRows {
+				lastRow = uint16(res.NumRows - 1)
 			}
-			if lastCol == 0xFF { // placeholder value indicate "last"
-				lastCol = uint16(maxCol) - 1
+			if int(lastCol) >= res.NumCols {
+				lastCol = uint16(res.NumCols - 1)
 			}
 
 			// decode the hyperlink datastructure and try to find the
 			// display text and separate the URL itself.
-			displayText, linkText, err := decodeHyperlinks(r.Data[8:])
+			displayText, linkText, internal, err := decodeHyperlinks(r.Data[8:])
 			if err != nil {
 				log.Println(err)
 				continue
@@ -343,9 +344,28 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			// apply merge cell rules (see RecTypeMergeCells below)
 			for rn := int(firstRow); rn <= int(lastRow); rn++ {
 				for cn := int(firstCol); cn <= int(lastCol); cn++ {
+					var cell commonxl.Cell
+					if cn < len(res.Rows[rn]) {
+						cell = res.Rows[rn][cn]
+					}
 					if rn == int(firstRow) && cn == int(firstCol) {
+						// without a display name the text is the cell's own, as
+						// it is for links that stay inside of the workbook.
+						if cell.Type() != commonxl.BlankCell && (displayText == "" || internal) {
+							displayText, _ = res.Formatter.Apply(cell.FormatNo(), cell.Value())
+						}
 						// TODO: provide custom hooks for how to handle links in output
-						res.Put(rn, cn, displayText+" <"+linkText+">", 0)
+						if linkText == "" {
+							if cell.Type() == commonxl.BlankCell {
+								res.Put(rn, cn, displayText, 0)
+							}
+						} else if displayText == "" {
+							res.Put(rn, cn, "<"+linkText+">", 0)
+						} else {
+							res.Put(rn, cn, displayText+" <"+linkText+">", 0)
+						}
+					} else if cell.Type() != commonxl.BlankCell {
+						// never replace the data of another cell
 					} else if cn == int(firstCol) {
 						// first and last column MAY be the same
 						if rn == int(lastRow) {
-- 
2.43.0


From 29a69ee7c9d6502b342cfff70b62b81e089994b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 26/60] fix: merged ranges are clipped to the extent of the
 sheet

---
 xls/sheets.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 879f7ad..b247ca7 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -403,11 +403,12 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				lastCol := binary.LittleEndian.Uint16(raw[6:])
 				raw = raw[8:]
 
-				if lastRow == 0xFFFF { // placeholder value indicate "last"
-					lastRow = uint16(maxRow) - 1
+				// NB 0xFFFF and 0xFF are placeholder values indicating "last"
+				if int(lastRow) >= res.NumRows {
+					lastRow = uint16(res.NumRows - 1)
 				}
-				if lastCol == 0xFF { // placeholder value indicate "last"
-					lastCol = uint16(maxCol) - 1
+				if int(lastCol) >= res.NumCols {
+					lastCol = uint16(res.NumCols - 1)
 				}
 				for rn := int(firstRow); rn <= int(lastRow); rn++ {
 					for cn := int(firstCol); cn <= int(lastCol); cn++ {
-- 
2.43.0


From b9db751c6f8adc356541bc3ebe27ebbb5e26d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 27/60] fix: shared strings may end one byte before their
 record does

---
 xls/strings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xls/strings.go b/xls/strings.go
index ae96981..c08a12c 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -201,11 +201,11 @@ func parseSST(recs []*rec) ([]string, error) {
 					current[j] = uint16(buf[0])
 					buf = buf[1:]
 				} else { //16-bit
-					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
-					buf = buf[2:]
 					if len(buf) == 1 {
 						return nil, errors.New("xls: off by one")
 					}
+					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
+					buf = buf[2:]
 				}
 			}
 
-- 
2.43.0


From 641b469c3f93ca2bbd93632f567c69c75ef63c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 28/60] fix: corrupted XLS records are errors, not crashes

---
 xls/sheets.go  | 83 +++++++++++++++++++++++++++++++++++++++++++++-----
 xls/strings.go | 10 +++++-
 xls/xls.go     | 38 ++++++++++++++++++-----
 3 files changed, 116 insertions(+), 15 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index b247ca7..5151a90 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -3,6 +3,7 @@ package xls
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"log"
 	"math"
 	"unicode/utf16"
@@ -34,16 +35,41 @@ func (b *WorkBook) ListHidden() ([]string, error) {
 }
 
 // Get opens the named worksheet and return an iterator for its contents.
-func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
+func (b *WorkBook) Get(sheetName string) (coll grate.Collection, err error) {
+	defer func() {
+		// record contents are not validated up front
+		if x := recover(); x != nil {
+			coll, err = nil, fmt.Errorf("xls: invalid sheet: %v", x)
+		}
+	}()
+
 	for _, s := range b.sheets {
 		if s.Name == sheetName {
-			ss := b.pos2substream[int64(s.Position)]
-			return b.parseSheet(s, ss)
+			ss, ok := b.pos2substream[int64(s.Position)]
+			if !ok || ss >= len(b.substreams) {
+				return nil, errors.New("xls: sheet data not found")
+			}
+			sheet, err := b.parseSheet(s, ss)
+			if err != nil {
+				return nil, err
+			}
+			return sheet, nil
 		}
 	}
 	return nil, errors.New("xls: sheet not found")
 }
 
+// the size limits of a BIFF8 sheet
+const (
+	maxRows = 0x10000
+	maxCols = 0x100
+)
+
+var (
+	errInvalidColumn = errors.New("xls: invalid cell column")
+	errInvalidRanges = errors.New("xls: merged ranges exceed the sheet")
+)
+
 func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	res := &commonxl.Sheet{
 		Formatter: &b.nfmt,
@@ -89,12 +115,18 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				log.Printf("    Sheet dimensions (%d, %d) - (%d,%d)",
 					minCol, minRow, maxCol, maxRow)
 			}
-			if minRow > 0x0000FFFF || maxRow > 0x00010000 {
+			if minRow > 0x0000FFFF || maxRow > maxRows {
 				log.Println("invalid dimensions")
 			}
-			if minCol > 0x00FF || maxCol > 0x0100 {
+			if minCol > 0x00FF || maxCol > maxCols {
 				log.Println("invalid dimensions")
 			}
+			if maxRow > maxRows {
+				maxRow = maxRows
+			}
+			if maxCol > maxCols {
+				maxCol = maxCols
+			}
 
 			// pre-allocate cells
 			res.Resize(int(maxRow), int(maxCol))
@@ -102,6 +134,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	}
 	inSubstream = 0
 
+	// no valid sheet has overlapping ranges
+	numMerged, numLinked := 0, 0
+
 	var formulaRow, formulaCol uint16
 	for ridx, r := range b.substreams[ss] {
 		if inSubstream > 0 {
@@ -136,6 +171,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		case RecTypeBoolErr:
 			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
+			if colIndex >= maxCols {
+				return nil, errInvalidColumn
+			}
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			if r.Data[7] == 0 {
 				// Boolean value
@@ -164,6 +202,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			nrk := int((r.RecSize - 6) / 6)
 			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
+			if colIndex+nrk > maxCols {
+				return nil, errInvalidColumn
+			}
 			for i := 0; i < nrk; i++ {
 				off := 4 + i*6
 				ixfe := int(binary.LittleEndian.Uint16(r.Data[off:]))
@@ -186,6 +227,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		case RecTypeNumber:
 			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
+			if colIndex >= maxCols {
+				return nil, errInvalidColumn
+			}
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			xnum := binary.LittleEndian.Uint64(r.Data[6:])
 
@@ -200,6 +244,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		case RecTypeRK:
 			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
+			if colIndex >= maxCols {
+				return nil, errInvalidColumn
+			}
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:]))
 			value := RKNumber(binary.LittleEndian.Uint32(r.Data[6:]))
 
@@ -219,6 +266,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		case RecTypeFormula:
 			formulaRow = binary.LittleEndian.Uint16(r.Data[:2])
 			formulaCol = binary.LittleEndian.Uint16(r.Data[2:4])
+			if formulaCol >= maxCols {
+				return nil, errInvalidColumn
+			}
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			fdata := r.Data[6:]
 			var fno uint16
@@ -299,8 +349,11 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			rowIndex := int(binary.LittleEndian.Uint16(r.Data[:2]))
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
+			if colIndex >= maxCols {
+				return nil, errInvalidColumn
+			}
 			sstIndex := int(binary.LittleEndian.Uint32(r.Data[6:]))
-			if sstIndex > len(b.strings) {
+			if sstIndex >= len(b.strings) {
 				return nil, errors.New("xls: invalid sst index")
 			}
 			var fno uint16
@@ -316,7 +369,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			firstRow := binary.LittleEndian.Uint16(r.Data[:2])
 			lastRow := binary.LittleEndian.Uint16(r.Data[2:4])
 			firstCol := binary.LittleEndian.Uint16(r.Data[4:6])
-			lastCol := binary.LittleEndian.Uint16(r.Data[6:])
+			lastCol := binary.LittleEndian.Uint16(r.Data[6:8])
 			if int(firstCol) >= res.NumCols {
 				//log.Println("invalid hyperlink column")
 				continue
@@ -333,6 +386,13 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				lastCol = uint16(res.NumCols - 1)
 			}
 
+			if firstRow <= lastRow && firstCol <= lastCol {
+				numLinked += (int(lastRow-firstRow) + 1) * (int(lastCol-firstCol) + 1)
+			}
+			if numLinked > maxRows*maxCols {
+				return nil, errInvalidRanges
+			}
+
 			// decode the hyperlink datastructure and try to find the
 			// display text and separate the URL itself.
 			displayText, linkText, internal, err := decodeHyperlinks(r.Data[8:])
@@ -402,6 +462,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				firstCol := binary.LittleEndian.Uint16(raw[4:6])
 				lastCol := binary.LittleEndian.Uint16(raw[6:])
 				raw = raw[8:]
+				if int(firstRow) >= res.NumRows || int(firstCol) >= res.NumCols {
+					continue
+				}
 
 				// NB 0xFFFF and 0xFF are placeholder values indicating "last"
 				if int(lastRow) >= res.NumRows {
@@ -410,6 +473,12 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				if int(lastCol) >= res.NumCols {
 					lastCol = uint16(res.NumCols - 1)
 				}
+				if firstRow <= lastRow && firstCol <= lastCol {
+					numMerged += (int(lastRow-firstRow) + 1) * (int(lastCol-firstCol) + 1)
+				}
+				if numMerged > maxRows*maxCols {
+					return nil, errInvalidRanges
+				}
 				for rn := int(firstRow); rn <= int(lastRow); rn++ {
 					for cn := int(firstCol); cn <= int(lastCol); cn++ {
 						if rn == int(firstRow) && cn == int(firstCol) {
diff --git a/xls/strings.go b/xls/strings.go
index c08a12c..35f944b 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -142,7 +142,15 @@ func parseSST(recs []*rec) ([]string, error) {
 	//totalRefs := binary.LittleEndian.Uint32(recs[0].Data[0:4])
 	numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
 
-	all := make([]string, 0, numStrings)
+	// NB every string takes 3 bytes at least
+	maxStrings := 0
+	for _, r := range recs {
+		maxStrings += len(r.Data) / 3
+	}
+	if int64(numStrings) < int64(maxStrings) {
+		maxStrings = int(numStrings)
+	}
+	all := make([]string, 0, maxStrings)
 	current := make([]uint16, 32*1024)
 
 	buf := recs[0].Data[8:]
diff --git a/xls/xls.go b/xls/xls.go
index cdd595a..e46aab3 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"sync"
@@ -49,7 +50,15 @@ func (b *WorkBook) IsProtected() bool {
 	return b.prot
 }
 
-func Open(filename string) (grate.Source, error) {
+// Open an XLS file and load the workbook it contains.
+func Open(filename string) (src grate.Source, err error) {
+	defer func() {
+		// record contents are not validated up front
+		if x := recover(); x != nil {
+			src, err = nil, fmt.Errorf("xls: invalid file: %v", x)
+		}
+	}()
+
 	doc, err := cfb.Open(filename)
 	if err != nil {
 		return nil, err
@@ -73,7 +82,10 @@ func Open(filename string) (grate.Source, error) {
 	}
 
 	err = b.loadFromStream(raw)
-	return b, err
+	if err != nil {
+		return nil, err
+	}
+	return b, nil
 }
 
 func (b *WorkBook) loadFromStream(raw []byte) error {
@@ -96,7 +108,7 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	}
 
 	pos := 0
-	zeros := [8224]byte{}
+	zeros := [0x10000]byte{}
 
 	type overlay struct {
 		Pos int
@@ -108,12 +120,15 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	replaceBlocks := []overlay{}
 
 	var err error
-	for err == nil && len(raw[pos:]) > 4 {
+	for err == nil && len(raw[pos:]) >= 4 {
 		o := overlay{}
 		o.Pos = pos
 		o.RecType = recordType(binary.LittleEndian.Uint16(raw[pos : pos+2]))
 		o.DataBytes = binary.LittleEndian.Uint16(raw[pos+2 : pos+4])
 		pos += 4
+		if int(o.DataBytes) > len(raw[pos:]) {
+			return io.ErrUnexpectedEOF
+		}
 
 		// copy to output and decryption stream
 		binary.Write(dec, binary.LittleEndian, o.RecType)
@@ -129,6 +144,9 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 			tocopy = 0
 
 		case RecTypeBoundSheet8:
+			if o.DataBytes < 4 {
+				return io.ErrUnexpectedEOF
+			}
 			// copy 32-bit position to output
 			o.Data = raw[pos : pos+4]
 			pos += 4
@@ -194,7 +212,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 		raw = raw[no:]
 		switch nr.RecType {
 		case RecTypeEOF:
-			nestedBOF--
+			if nestedBOF > 0 {
+				nestedBOF--
+			}
 		case RecTypeBOF:
 			// when substreams are nested, keep them in the same grouping
 			if nestedBOF == 0 {
@@ -205,6 +225,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			nestedBOF++
 		}
 		b.fpos += int64(4 + len(nr.Data))
+		if substr < 0 {
+			return errors.New("xls: workbook stream does not start with a BOF record")
+		}
 
 		// if there's a FilePass record, the data is encrypted
 		if nr.RecType == RecTypeFilePass && !isDecrypted {
@@ -356,6 +379,7 @@ func (b *WorkBook) nextRecord(raw []byte) (*rec, int, error) {
 		recPool.Put(rec)
 		return nil, 4, io.ErrUnexpectedEOF
 	}
-	rec.Data = raw[4 : 4+rec.RecSize]
-	return rec, int(4 + rec.RecSize), nil
+	no := 4 + int(rec.RecSize)
+	rec.Data = raw[4:no]
+	return rec, no, nil
 }
-- 
2.43.0


From 02ec8f3d9b8cdd34a33c4e45dbb7752dc853870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 29/60] fix: shared strings hold exactly the text of their
 items

---
 xlsx/types.go    | 17 +++++++++++++++++
 xlsx/workbook.go | 24 ++++++++++++++++++------
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/xlsx/types.go b/xlsx/types.go
index 427c0c0..50ffe5b 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -2,8 +2,10 @@ package xlsx
 
 import (
 	"encoding/xml"
+	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 )
 
 type CellType string
@@ -90,3 +92,18 @@ func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	}
 	return res
 }
+
+var escapedChars = regexp.MustCompile(`(_x[0-9A-Fa-f]{4}_)+`)
+
+// unescapeString replaces the _xHHHH_ escapes (of UTF-16 code units) in a string,
+// see ST_Xstring in section 22.9.2.19
+func unescapeString(s string) string {
+	return escapedChars.ReplaceAllStringFunc(s, func(m string) string {
+		var us []uint16
+		for ; m != ""; m = m[7:] {
+			u, _ := strconv.ParseUint(m[2:6], 16, 16)
+			us = append(us, uint16(u))
+		}
+		return string(utf16.Decode(us))
+	})
+}
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index ac9689a..3e16316 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -185,18 +185,26 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 }
 
 func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
-	val := ""
+	// only the text of a string and its runs counts, not its phonetic guide
+	inText, inPhonetic := false, false
+	var val strings.Builder
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			val += string(v)
+			if inText {
+				val.Write(v)
+			}
 		case xml.StartElement:
 			switch v.Name.Local {
 			case "si":
-				val = ""
+				val.Reset()
+				inText, inPhonetic = false, false
 			case "t":
 				// no attributes to parse, we only want the CharData ...
+				inText = !inPhonetic
+			case "rPh":
+				inPhonetic = true
 			case "sst":
 				// main container
 			default:
@@ -205,9 +213,13 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 				}
 			}
 		case xml.EndElement:
-			if v.Name.Local == "si" {
-				d.strings = append(d.strings, val)
-				continue
+			switch v.Name.Local {
+			case "si":
+				d.strings = append(d.strings, unescapeString(val.String()))
+			case "t":
+				inText = false
+			case "rPh":
+				inPhonetic = false
 			}
 		default:
 			if grate.Debug {
-- 
2.43.0


From dbd66f3c7ec853d6e4027a688faed05f8ddd0d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 30/60] fix: XLSX cells hold exactly the text of their value

---
 xlsx/sheets.go | 107 +++++++++++++++++++++++++++++++------------------
 1 file changed, 68 insertions(+), 39 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index fc9c76b..99aadbb 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -55,6 +55,10 @@ func (s *Sheet) parseSheet() error {
 	}
 	defer clo.Close()
 
+	// only the text of some elements inside of a cell is its value
+	inCell, inInline, inPhonetic, inValue := false, false, false, false
+	var val strings.Builder
+
 	currentCellType := BlankCellType
 	currentCell := ""
 	var fno uint16
@@ -64,44 +68,8 @@ func (s *Sheet) parseSheet() error {
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			if currentCell == "" {
-				continue
-			}
-			c, r := refToIndexes(currentCell)
-			if c >= 0 && r >= 0 {
-				var val interface{} = string(v)
-
-				switch currentCellType {
-				case BooleanCellType:
-					if v[0] == '1' {
-						val = true
-					} else {
-						val = false
-					}
-				case DateCellType:
-					log.Println("CELL DATE", val, fno)
-				case NumberCellType:
-					fval, err := strconv.ParseFloat(string(v), 64)
-					if err == nil {
-						val = fval
-					}
-					//log.Println("CELL NUMBER", val, numFormat)
-				case SharedStringCellType:
-					//log.Println("CELL SHSTR", val, currentCellType, numFormat)
-					si, _ := strconv.ParseInt(string(v), 10, 64)
-					val = s.d.strings[si]
-				case BlankCellType:
-					//log.Println("CELL BLANK")
-					// don't place any values
-					continue
-				case ErrorCellType, FormulaStringCellType, InlineStringCellType:
-					//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
-				default:
-					log.Println("CELL UNKNOWN", val, currentCellType, fno)
-				}
-				s.wrapped.Put(r, c, val, fno)
-			} else {
-				//log.Println("FAIL row/col: ", currentCell)
+			if inValue {
+				val.Write(v)
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -140,8 +108,16 @@ func (s *Sheet) parseSheet() error {
 					fno = 0
 				}
 				//log.Println("CELL", currentCell, sid, numFormat, currentCellType)
+				inCell, inInline, inPhonetic, inValue = true, false, false, false
+				val.Reset()
 			case "v":
-				//log.Println("CELL VALUE", ax)
+				inValue = inCell
+			case "is":
+				inInline = inCell
+			case "rPh":
+				inPhonetic = true
+			case "t":
+				inValue = inInline && !inPhonetic
 
 			case "mergeCell":
 				ax := getAttrs(v.Attr, "ref")
@@ -197,7 +173,22 @@ func (s *Sheet) parseSheet() error {
 
 			switch v.Name.Local {
 			case "c":
+				c, r := refToIndexes(currentCell)
+				if c >= 0 && r >= 0 && val.Len() > 0 {
+					err = s.putCell(r, c, currentCellType, val.String(), fno)
+					if err != nil {
+						return err
+					}
+				}
 				currentCell = ""
+				inCell, inInline, inPhonetic, inValue = false, false, false, false
+				val.Reset()
+			case "v", "t":
+				inValue = false
+			case "is":
+				inInline = false
+			case "rPh":
+				inPhonetic = false
 			case "row":
 				//currentRow = ""
 			}
@@ -212,3 +203,41 @@ func (s *Sheet) parseSheet() error {
 	}
 	return err
 }
+
+// putCell converts and stores the text contents of a cell.
+func (s *Sheet) putCell(row, col int, ctype CellType, text string, fno uint16) error {
+	if ctype != FormulaStringCellType && ctype != InlineStringCellType {
+		text = strings.TrimSpace(text)
+		if text == "" {
+			return nil
+		}
+	}
+
+	var val interface{} = text
+	switch ctype {
+	case BooleanCellType:
+		val = text == "1" || text == "true"
+	case NumberCellType:
+		fval, err := strconv.ParseFloat(text, 64)
+		if err == nil {
+			val = fval
+		}
+	case SharedStringCellType:
+		si, err := strconv.Atoi(text)
+		if err != nil || si < 0 || si >= len(s.d.strings) {
+			return errors.New("xlsx: invalid shared string index")
+		}
+		val = s.d.strings[si]
+	case ErrorCellType:
+		// number formats do not apply to errors
+		fno = 0
+	case FormulaStringCellType, InlineStringCellType:
+		val = unescapeString(text)
+	case DateCellType:
+		log.Println("CELL DATE", val, fno)
+	default:
+		log.Println("CELL UNKNOWN", val, ctype, fno)
+	}
+	s.wrapped.Put(row, col, val, fno)
+	return nil
+}
-- 
2.43.0


From e89dede3f67bb2290518774b9ff7e147b2dad8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 31/60] fix: XLSX dimensions and merged ranges cover exactly
 the cells of their references

---
 xlsx/sheets.go | 45 ++++++++++++++++++++++-----------------------
 xlsx/types.go  | 48 ++++++++++++++++++++++++++++++++----------------
 2 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 99aadbb..74d3eec 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -24,6 +24,9 @@ type Sheet struct {
 	wrapped *commonxl.Sheet
 }
 
+// the number of cells that merged ranges may cover
+const maxMerged = 1 << 24
+
 var errNotLoaded = errors.New("xlsx: sheet not loaded")
 
 func (s *Sheet) parseSheet() error {
@@ -62,7 +65,8 @@ func (s *Sheet) parseSheet() error {
 	currentCellType := BlankCellType
 	currentCell := ""
 	var fno uint16
-	var maxCol, maxRow int
+	hasDimension := false
+	numMerged := 0
 
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
@@ -75,20 +79,11 @@ func (s *Sheet) parseSheet() error {
 			switch v.Name.Local {
 			case "dimension":
 				ax := getAttrs(v.Attr, "ref")
-				if ax[0] == "A1" {
-					maxCol, maxRow = 1, 1
-					// short-circuit empty sheet
-					s.wrapped.Resize(1, 1)
-					continue
-				}
-				dims := strings.Split(ax[0], ":")
-				if len(dims) == 1 {
-					maxCol, maxRow = refToIndexes(dims[0])
-				} else {
-					//minCol, minRow := refToIndexes(dims[0])
-					maxCol, maxRow = refToIndexes(dims[1])
+				_, _, maxCol, maxRow, ok := refToRange(ax[0])
+				if ok {
+					s.wrapped.Resize(maxRow+1, maxCol+1)
+					hasDimension = true
 				}
-				s.wrapped.Resize(maxRow, maxCol)
 				//log.Println("DIMENSION:", s.minRow, s.minCol, ">", s.maxRow, s.maxCol)
 			case "row":
 				//currentRow = ax["r"] // unsigned int row index
@@ -121,17 +116,21 @@ func (s *Sheet) parseSheet() error {
 
 			case "mergeCell":
 				ax := getAttrs(v.Attr, "ref")
-				dims := strings.Split(ax[0], ":")
-				startCol, startRow := refToIndexes(dims[0])
-				endCol, endRow := startCol, startRow
-				if len(dims) > 1 {
-					endCol, endRow = refToIndexes(dims[1])
+				startCol, startRow, endCol, endRow, ok := refToRange(ax[0])
+				if !ok {
+					continue
+				}
+				if hasDimension && endRow >= s.wrapped.NumRows {
+					endRow = s.wrapped.NumRows - 1
+				}
+				if hasDimension && endCol >= s.wrapped.NumCols {
+					endCol = s.wrapped.NumCols - 1
 				}
-				if endRow > maxRow {
-					endRow = maxRow
+				if startRow <= endRow && startCol <= endCol {
+					numMerged += (endRow - startRow + 1) * (endCol - startCol + 1)
 				}
-				if endCol > maxCol {
-					endCol = maxCol
+				if numMerged > maxMerged {
+					return errors.New("xlsx: too many merged cells")
 				}
 				for r := startRow; r <= endRow; r++ {
 					for c := startCol; c <= endCol; c++ {
diff --git a/xlsx/types.go b/xlsx/types.go
index 50ffe5b..c6db9df 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -56,29 +56,45 @@ func col2int(col string) int {
 	return idx - 1
 }
 
+// the size limits of a sheet
+const (
+	maxRows = 1048576
+	maxCols = 16384
+)
+
+// refToIndexes returns the 0-based indexes of an A1 style cell reference,
+// or -1, -1 if it is invalid.
 func refToIndexes(r string) (column, row int) {
-	if len(r) < 2 {
+	i1 := strings.IndexAny(r, "0123456789")
+	if i1 <= 0 || i1 > 3 {
 		return -1, -1
 	}
-	i1 := strings.IndexAny(r, "0123456789")
-	if i1 <= 0 {
+	for _, c := range r[:i1] {
+		if c < 'A' || c > 'Z' {
+			return -1, -1
+		}
+	}
+	rn, err := strconv.ParseUint(r[i1:], 10, 32)
+	if err != nil || rn < 1 || rn > maxRows {
 		return -1, -1
 	}
-
-	// A1 Reference mode
-	col1 := r[:i1]
-	i2 := strings.IndexByte(r[i1:], 'C')
-	if i2 == -1 {
-		rn, _ := strconv.ParseInt(r[i1:], 10, 64)
-		return col2int(col1), int(rn) - 1
+	col := col2int(r[:i1])
+	if col >= maxCols {
+		return -1, -1
 	}
+	return col, int(rn) - 1
+}
 
-	// R1C1 Reference Mode
-	col1 = r[i1:i2]
-	row1 := r[i2+1:]
-	cn, _ := strconv.ParseInt(col1, 10, 64)
-	rn, _ := strconv.ParseInt(row1, 10, 64)
-	return int(cn), int(rn) - 1
+// refToRange returns the 0-based indexes of the first and last cell in an A1
+// style range or cell reference, and false if it is invalid.
+func refToRange(r string) (col1, row1, col2, row2 int, ok bool) {
+	dims := strings.Split(r, ":")
+	col1, row1 = refToIndexes(dims[0])
+	col2, row2 = col1, row1
+	if len(dims) > 1 {
+		col2, row2 = refToIndexes(dims[1])
+	}
+	return col1, row1, col2, row2, col1 >= 0 && col2 >= 0
 }
 
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
-- 
2.43.0


From 5dab8e8cfb2e4f4d5f8b86b5db83b6448cbe735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 32/60] fix: XLSX hyperlinks never replace a cell without an
 external target

---
 xlsx/sheets.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 74d3eec..c82592c 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -153,9 +153,17 @@ func (s *Sheet) parseSheet() error {
 				}
 
 			case "hyperlink":
-				ax := getAttrs(v.Attr, "ref", "id")
-				col, row := refToIndexes(ax[0])
+				ax := getAttrs(v.Attr, "ref", "id", "location")
+				col, row, _, _, ok := refToRange(ax[0])
 				link := linkmap[ax[1]]
+				if !ok || link == "" {
+					// not a link to an external target
+					continue
+				}
+				if ax[2] != "" {
+					// a location inside of the target
+					link += "#" + ax[2]
+				}
 				s.wrapped.Put(row, col, link, 0)
 				s.wrapped.SetURL(row, col, link)
 
-- 
2.43.0


From 063a5cac8f51f52a2ae6a9350ba1f7c5b82499e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 33/60] fix: every Get of an XLSX sheet returns its own
 complete iterator

---
 xlsx/xlsx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 3d5eaad..a8c29f2 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -163,7 +163,13 @@ func (d *Document) Get(sheetName string) (grate.Collection, error) {
 			if s.err == errNotLoaded {
 				s.err = s.parseSheet()
 			}
-			return s.wrapped, s.err
+			if s.err != nil {
+				return nil, s.err
+			}
+			// every iterator starts over
+			sheet := *s.wrapped
+			sheet.CurRow = 0
+			return &sheet, nil
 		}
 	}
 	return nil, errors.New("xlsx: sheet not found")
-- 
2.43.0


From 5d89ca4cf217abbb8ed2d8afcef4c81d59d70415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 34/60] fix: the target of the XLSX workbook part may be
 absolute

---
 xlsx/workbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 3e16316..38632dd 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -35,7 +35,7 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
 				}
 				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
-					d.primaryDoc = vals["Target"]
+					d.primaryDoc = d.rels[vals["Type"]][vals["Id"]]
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 940e8a30415d7e6e6f5b2ab162434d8fe943803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 35/60] fix: XLSX cells only use the number formats of the cell
 styles

---
 xlsx/workbook.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 38632dd..e4202d6 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -118,9 +118,13 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				// container
 			case "numFmt":
 				ax := getAttrs(v.Attr, "numFmtId", "formatCode")
-				fmtNo, _ := strconv.ParseInt(ax[0], 10, 16)
-				d.fmt.Add(uint16(fmtNo), ax[1])
+				fmtNo, err := strconv.ParseUint(ax[0], 10, 16)
+				if err == nil && section == 3 {
+					d.fmt.Add(uint16(fmtNo), ax[1])
+				}
 
+			case "numFmts":
+				section = 3
 			case "cellStyleXfs":
 				section = 1
 			case "cellXfs":
@@ -155,7 +159,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 						numFmtID = ax[0]
 					}
 
-					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
+					nfid, _ := strconv.ParseUint(numFmtID, 10, 16)
 					d.xfs = append(d.xfs, uint16(nfid))
 				} else {
 					panic("wheres is this xf??")
@@ -167,6 +171,8 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 			}
 		case xml.EndElement:
 			switch v.Name.Local {
+			case "numFmts":
+				section = 0
 			case "cellStyleXfs":
 				section = 0
 			case "cellXfs":
-- 
2.43.0


From f6d339933b8bdadb21e0b4bc0e372f4a3fb0d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 36/60] fix: XLSX files that fail to open are closed

---
 xlsx/xlsx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index a8c29f2..7be418c 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -41,11 +41,17 @@ func (d *Document) Close() error {
 	return d.f.Close()
 }
 
-func Open(filename string) (grate.Source, error) {
+// Open an XLSX file and load the workbook it contains.
+func Open(filename string) (src grate.Source, err error) {
 	f, err := os.Open(filename)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	info, err := f.Stat()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4817fa1129b7a15f739b313e2b17ef158c567a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 37/60] fix: corrupted XLSX parts are errors, not crashes

---
 xlsx/sheets.go   |  2 +-
 xlsx/workbook.go |  8 ++------
 xlsx/xlsx.go     | 14 +++++++++++++-
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index c82592c..4dcc876 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -97,7 +97,7 @@ func (s *Sheet) parseSheet() error {
 				currentCell = ax[1] // always an A1 style reference
 				style := ax[2]
 				sid, _ := strconv.ParseInt(style, 10, 64)
-				if len(s.d.xfs) > int(sid) {
+				if sid >= 0 && int64(len(s.d.xfs)) > sid {
 					fno = s.d.xfs[sid]
 				} else {
 					fno = 0
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index e4202d6..490a70a 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -129,9 +129,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 				section = 1
 			case "cellXfs":
 				section = 2
-				ax := getAttrs(v.Attr, "count")
-				n, _ := strconv.ParseInt(ax[0], 10, 64)
-				d.xfs = make([]uint16, 0, n)
+				d.xfs = d.xfs[:0]
 
 			case "xf":
 				ax := getAttrs(v.Attr, "numFmtId", "applyNumberFormat", "xfId")
@@ -147,7 +145,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 					// 1) get base style so we can inherit format properly
 					baseID, _ := strconv.ParseInt(ax[2], 10, 64)
 					numFmtID := "0"
-					if len(baseNumFormats) > int(baseID) {
+					if baseID >= 0 && int64(len(baseNumFormats)) > baseID {
 						numFmtID = baseNumFormats[baseID]
 					}
 
@@ -161,8 +159,6 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 
 					nfid, _ := strconv.ParseUint(numFmtID, 10, 16)
 					d.xfs = append(d.xfs, uint16(nfid))
-				} else {
-					panic("wheres is this xf??")
 				}
 			default:
 				if grate.Debug {
diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 7be418c..20993b0 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"encoding/xml"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"os"
@@ -48,6 +49,10 @@ func Open(filename string) (src grate.Source, err error) {
 		return nil, err
 	}
 	defer func() {
+		// archive contents are not validated up front
+		if x := recover(); x != nil {
+			src, err = nil, fmt.Errorf("xlsx: invalid file: %v", x)
+		}
 		if err != nil {
 			f.Close()
 		}
@@ -163,7 +168,14 @@ func (d *Document) List() ([]string, error) {
 	return res, nil
 }
 
-func (d *Document) Get(sheetName string) (grate.Collection, error) {
+func (d *Document) Get(sheetName string) (coll grate.Collection, err error) {
+	defer func() {
+		// archive contents are not validated up front
+		if x := recover(); x != nil {
+			coll, err = nil, fmt.Errorf("xlsx: invalid sheet: %v", x)
+		}
+	}()
+
 	for _, s := range d.sheets {
 		if s.name == sheetName {
 			if s.err == errNotLoaded {
-- 
2.43.0


From 802dec7800387a6927616d1fcbd540915741f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 38/60] fix: readers of equal priority are tried in the order
 they were registered

---
 grate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grate.go b/grate.go
index b06f111..07d2b43 100644
--- a/grate.go
+++ b/grate.go
@@ -85,7 +85,7 @@ func Register(name string, priority int, opener OpenFunc) error {
 		log.Println("Registering the", name, "format at priority", priority)
 	}
 	srcTable = append(srcTable, &srcOpenTab{name: name, pri: priority, op: opener})
-	sort.Slice(srcTable, func(i, j int) bool {
+	sort.SliceStable(srcTable, func(i, j int) bool {
 		return srcTable[i].pri < srcTable[j].pri
 	})
 	return nil
-- 
2.43.0


From 17563b91b653110c21797a2ca4b0320c2e9fcc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 39/60] fix: grate2tsv removes newlines even if it does not
 trim spaces

---
 cmd/grate2tsv/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 61550e4..6a06610 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -237,8 +237,8 @@ func processFile(fn string) ([]stats, error) {
 				}
 				if *trimSpaces {
 					x = strings.TrimSpace(x)
-					row[i] = x
 				}
+				row[i] = x
 				if x != "" {
 					nonblank = true
 					if ps.NumCols < i {
-- 
2.43.0


From b816c808af5596d064376af841d93f4f35c30949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 40/60] fix: grate2tsv counts the last column

---
 cmd/grate2tsv/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 6a06610..c7b885f 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -241,8 +241,8 @@ func processFile(fn string) ([]stats, error) {
 				row[i] = x
 				if x != "" {
 					nonblank = true
-					if ps.NumCols < i {
-						ps.NumCols = i
+					if ps.NumCols < i+1 {
+						ps.NumCols = i + 1
 					}
 				}
 			}
-- 
2.43.0


From 4e5b39ff515ffc702fde386c6037a4e1507f16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 41/60] fix: grate2tsv runs on a single CPU

---
 cmd/grate2tsv/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index c7b885f..715f964 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -118,7 +118,7 @@ func main() {
 	// fan out to 1/2 of CPU cores
 	// (e.g. each file-processor can use 2 cpus)
 	outMu := &sync.Mutex{}
-	nparallel := runtime.NumCPU() / 2
+	nparallel := (runtime.NumCPU() + 1) / 2
 	procWG.Add(nparallel)
 	for i := 0; i < nparallel; i++ {
 		go runProcessor(filenameChan, outMu)
-- 
2.43.0


From 4922250e2aecd543d18806cc21e5d5b65e70a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 42/60] fix: grate2tsv never overwrites the output of another
 sheet

---
 cmd/grate2tsv/main.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 715f964..d219da2 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -172,6 +172,23 @@ type stats struct {
 	Err       error
 }
 
+var (
+	usedNames = make(map[string]bool)
+	usedMu    sync.Mutex
+)
+
+// uniqueName returns a filename not used by any other output of this process.
+func uniqueName(base, ext string) string {
+	usedMu.Lock()
+	defer usedMu.Unlock()
+	name := base + ext
+	for i := 2; usedNames[name]; i++ {
+		name = fmt.Sprintf("%s_%d%s", base, i, ext)
+	}
+	usedNames[name] = true
+	return name
+}
+
 func processFile(fn string) ([]stats, error) {
 	//log.Printf("Opening file '%s' ...", fn)
 	wb, err := grate.Open(fn)
@@ -218,7 +235,7 @@ func processFile(fn string) ([]stats, error) {
 		var ox *output
 		var w io.Writer = ioutil.Discard
 		if !*pretend {
-			f, err := os.Create(subdir + "/" + fn2 + "." + s2 + ".tsv")
+			f, err := os.Create(uniqueName(subdir+"/"+fn2+"."+s2, ".tsv"))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 25bc96033d4e4f94ff42d3c6483b79b2e913299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 43/60] fix: format code 56 lacked its closing quote

---
 commonxl/formats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 6c564fc..45455b6 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -431,7 +431,7 @@ var builtInFormats = map[uint16]string{
 	53: `m"月"d"日"`,
 	54: `m"月"d"日"`,
 	55: `上午/下午 h"时"mm"分"`,
-	56: `上午/下午 h"时"mm"分"ss"秒`,
+	56: `上午/下午 h"时"mm"分"ss"秒"`,
 	57: `yyyy"年"m"月"`,
 	58: `m"月"d"日"`,
 
-- 
2.43.0


From d092cea637969a887f4d57e25fc659aef08928ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 44/60] fix: huge numbers overflowed in fraction formats

---
 commonxl/fmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index a5d2b9e..d0c3d4a 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -183,6 +183,10 @@ func fracFmtFunc(n int) FmtFunc {
 		if !ok {
 			return "MUST BE numeric TO FORMAT CORRECTLY"
 		}
+		if math.Abs(f) >= 1<<53 {
+			// there is no fraction, and it may not fit into an int
+			return strconv.FormatFloat(f, 'f', 0, 64)
+		}
 		w, n, d := DecimalToWholeFraction(f, n, n)
 		if n == 0 {
 			return fmt.Sprintf("%d", w)
-- 
2.43.0


From 3badf610058a80ef901bef066a6f62000b9fd954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 45/60] fix: escapes never span the runs of a rich text string

---
 xlsx/sheets.go   | 12 +++++++++---
 xlsx/workbook.go | 11 ++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 4dcc876..a5eb25e 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -60,7 +60,7 @@ func (s *Sheet) parseSheet() error {
 
 	// only the text of some elements inside of a cell is its value
 	inCell, inInline, inPhonetic, inValue := false, false, false, false
-	var val strings.Builder
+	var val, run strings.Builder
 
 	currentCellType := BlankCellType
 	currentCell := ""
@@ -73,7 +73,7 @@ func (s *Sheet) parseSheet() error {
 		switch v := tok.(type) {
 		case xml.CharData:
 			if inValue {
-				val.Write(v)
+				run.Write(v)
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -107,12 +107,14 @@ func (s *Sheet) parseSheet() error {
 				val.Reset()
 			case "v":
 				inValue = inCell
+				run.Reset()
 			case "is":
 				inInline = inCell
 			case "rPh":
 				inPhonetic = true
 			case "t":
 				inValue = inInline && !inPhonetic
+				run.Reset()
 
 			case "mergeCell":
 				ax := getAttrs(v.Attr, "ref")
@@ -191,6 +193,10 @@ func (s *Sheet) parseSheet() error {
 				inCell, inInline, inPhonetic, inValue = false, false, false, false
 				val.Reset()
 			case "v", "t":
+				// NB escapes never span several runs
+				if inValue {
+					val.WriteString(unescapeString(run.String()))
+				}
 				inValue = false
 			case "is":
 				inInline = false
@@ -239,7 +245,7 @@ func (s *Sheet) putCell(row, col int, ctype CellType, text string, fno uint16) e
 		// number formats do not apply to errors
 		fno = 0
 	case FormulaStringCellType, InlineStringCellType:
-		val = unescapeString(text)
+		// the text as it is
 	case DateCellType:
 		log.Println("CELL DATE", val, fno)
 	default:
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 490a70a..2025c24 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -189,13 +189,13 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 	// only the text of a string and its runs counts, not its phonetic guide
 	inText, inPhonetic := false, false
-	var val strings.Builder
+	var val, run strings.Builder
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
 		case xml.CharData:
 			if inText {
-				val.Write(v)
+				run.Write(v)
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -205,6 +205,7 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 			case "t":
 				// no attributes to parse, we only want the CharData ...
 				inText = !inPhonetic
+				run.Reset()
 			case "rPh":
 				inPhonetic = true
 			case "sst":
@@ -217,8 +218,12 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 		case xml.EndElement:
 			switch v.Name.Local {
 			case "si":
-				d.strings = append(d.strings, unescapeString(val.String()))
+				d.strings = append(d.strings, val.String())
 			case "t":
+				// NB escapes never span several runs
+				if inText {
+					val.WriteString(unescapeString(run.String()))
+				}
 				inText = false
 			case "rPh":
 				inPhonetic = false
-- 
2.43.0


From 5c33e3640f116cf28b92130b62ff19c14ddd1e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 46/60] fix: huge numbers overflowed in percent formats

---
 commonxl/fmt.go     | 10 ++++++++++
 commonxl/formats.go | 10 +++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index d0c3d4a..8ed1801 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -3,6 +3,7 @@ package commonxl
 import (
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 	"strings"
 	"time"
@@ -109,6 +110,10 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 		if !ok {
 			return fmt.Sprint(v)
 		}
+		if math.IsInf(val*float64(mul), 0) && !math.IsInf(val, 0) {
+			// only the scaled value is too large for a float64
+			return fmt.Sprintf(strings.Replace(fs, "%d", "%.0f", 1), bigProduct(val, float64(mul)))
+		}
 		val *= float64(mul)
 		if wantInt64 {
 			val = math.Round(val)
@@ -121,6 +126,11 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 	}
 }
 
+// bigProduct multiplies finite values without overflowing.
+func bigProduct(a, b float64) *big.Float {
+	return new(big.Float).Mul(big.NewFloat(a), big.NewFloat(b))
+}
+
 func convertToInt64(v interface{}) (int64, bool) {
 	x, ok := convertToFloat64(v)
 	return int64(x), ok
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 45455b6..8237a59 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -295,10 +295,11 @@ func (nf *numberFormat) format(x *Formatter, v interface{}) string {
 		return fmt.Sprint(v)
 	}
 	isNeg := val < 0
-	val = math.Abs(val) * nf.mul
 	if math.IsNaN(val) || math.IsInf(val, 0) {
 		return fmt.Sprint(v)
 	}
+	mag := math.Abs(val)
+	val = mag * nf.mul
 
 	var s string
 	if n, ok := v.(int64); ok && n != math.MinInt64 && nf.mul == 1 && !nf.exponent {
@@ -307,6 +308,13 @@ func (nf *numberFormat) format(x *Formatter, v interface{}) string {
 		if nf.maxDecimals > 0 {
 			s += "." + strings.Repeat("0", nf.maxDecimals)
 		}
+	} else if math.IsInf(val, 0) {
+		// only the scaled value is too large for a float64
+		verb := byte('f')
+		if nf.exponent {
+			verb = 'E'
+		}
+		s = bigProduct(mag, nf.mul).Text(verb, nf.maxDecimals)
 	} else if nf.exponent {
 		s = strconv.FormatFloat(val, 'E', nf.maxDecimals, 64)
 	} else {
-- 
2.43.0


From b48ad45f44db92b7c179ba1d8ad038e848b39064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 47/60] fix: large integers lost digits in number formats

---
 commonxl/fmt.go     | 19 +++++++++++++------
 commonxl/formats.go |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 8ed1801..fc7088e 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -110,9 +110,9 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 		if !ok {
 			return fmt.Sprint(v)
 		}
-		if math.IsInf(val*float64(mul), 0) && !math.IsInf(val, 0) {
-			// only the scaled value is too large for a float64
-			return fmt.Sprintf(strings.Replace(fs, "%d", "%.0f", 1), bigProduct(val, float64(mul)))
+		if math.Abs(val) >= 1<<53 && !math.IsInf(val, 0) {
+			// the value, or the scaled value, may be inexact or too large as a float64
+			return fmt.Sprintf(strings.Replace(fs, "%d", "%.0f", 1), bigProduct(v, val, float64(mul)))
 		}
 		val *= float64(mul)
 		if wantInt64 {
@@ -126,9 +126,13 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 	}
 }
 
-// bigProduct multiplies finite values without overflowing.
-func bigProduct(a, b float64) *big.Float {
-	return new(big.Float).Mul(big.NewFloat(a), big.NewFloat(b))
+// bigProduct multiplies v, or its float64 value, exactly and without overflowing.
+func bigProduct(v interface{}, val, mul float64) *big.Float {
+	x := new(big.Float).SetPrec(128).SetFloat64(val)
+	if n, ok := v.(int64); ok {
+		x.SetInt64(n)
+	}
+	return x.Mul(x, big.NewFloat(mul))
 }
 
 func convertToInt64(v interface{}) (int64, bool) {
@@ -189,6 +193,9 @@ func zeroDashFunc(ff FmtFunc) FmtFunc {
 
 func fracFmtFunc(n int) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
+		if n, ok := v.(int64); ok {
+			return strconv.FormatInt(n, 10)
+		}
 		f, ok := convertToFloat64(v)
 		if !ok {
 			return "MUST BE numeric TO FORMAT CORRECTLY"
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 8237a59..6796007 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -314,7 +314,7 @@ func (nf *numberFormat) format(x *Formatter, v interface{}) string {
 		if nf.exponent {
 			verb = 'E'
 		}
-		s = bigProduct(mag, nf.mul).Text(verb, nf.maxDecimals)
+		s = bigProduct(nil, mag, nf.mul).Text(verb, nf.maxDecimals)
 	} else if nf.exponent {
 		s = strconv.FormatFloat(val, 'E', nf.maxDecimals, 64)
 	} else {
-- 
2.43.0


From 08202ce3aad2911213ed7c6bc689e19887f72e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 48/60] fix: ignore the elements of extensions

Excel 2013 and later write <x15:workbookPr chartTrackingRefBase="1"/> in the
extension list of a workbook, which turned off the 1904 date system.
---
 xlsx/sheets.go   |  3 +++
 xlsx/types.go    | 16 ++++++++++++++++
 xlsx/workbook.go |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index a5eb25e..ec51a60 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -169,6 +169,9 @@ func (s *Sheet) parseSheet() error {
 				s.wrapped.Put(row, col, link, 0)
 				s.wrapped.SetURL(row, col, link)
 
+			case "extLst":
+				// extensions have elements with the same names
+				skipElement(dec)
 			case "worksheet", "mergeCells", "hyperlinks":
 				// containers
 			case "f":
diff --git a/xlsx/types.go b/xlsx/types.go
index c6db9df..0fce760 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -109,6 +109,22 @@ func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	return res
 }
 
+// skipElement skips the rest of an element. NB any error will come up again with the next token.
+func skipElement(dec *xml.Decoder) {
+	for depth := 1; depth > 0; {
+		tok, err := dec.RawToken()
+		if err != nil {
+			return
+		}
+		switch tok.(type) {
+		case xml.StartElement:
+			depth++
+		case xml.EndElement:
+			depth--
+		}
+	}
+}
+
 var escapedChars = regexp.MustCompile(`(_x[0-9A-Fa-f]{4}_)+`)
 
 // unescapeString replaces the _xHHHH_ escapes (of UTF-16 code units) in a string,
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 2025c24..6f51c47 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -83,6 +83,9 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 			case "workbookPr":
 				ax := getAttrs(v.Attr, "date1904")
 				d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
+			case "extLst":
+				// extensions have elements with the same names
+				skipElement(dec)
 			case "workbook", "sheets":
 				// containers
 			default:
@@ -160,6 +163,9 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 					nfid, _ := strconv.ParseUint(numFmtID, 10, 16)
 					d.xfs = append(d.xfs, uint16(nfid))
 				}
+			case "extLst":
+				// extensions have elements with the same names
+				skipElement(dec)
 			default:
 				if grate.Debug {
 					log.Println("  Unhandled style xml tag", v.Name.Local, v.Attr)
@@ -210,6 +216,9 @@ func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
 				inPhonetic = true
 			case "sst":
 				// main container
+			case "extLst":
+				// extensions have elements with the same names
+				skipElement(dec)
 			default:
 				if grate.Debug {
 					log.Println("  Unhandled SST xml tag", v.Name.Local, v.Attr)
-- 
2.43.0


From 793a3489a51b13cf0f20a17315e7e7fc25dc3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 49/60] fix: scale by thousands with commas after the decimals
 of a number format

---
 commonxl/formats.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 6796007..aa1f3d7 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -248,7 +248,13 @@ func makeSection(toks []fmtToken) (FmtFunc, CellType) {
 	ctype := IntegerCell
 	frac, digits := false, tokenText(toks[i1:i2])
 	if i := strings.IndexByte(digits, '.'); i >= 0 {
-		decimals := strings.ReplaceAll(digits[i+1:], ",", "")
+		decimals := digits[i+1:]
+		for strings.HasSuffix(decimals, ",") {
+			// scaled by thousands
+			decimals = decimals[:len(decimals)-1]
+			nf.mul /= 1000
+		}
+		decimals = strings.ReplaceAll(decimals, ",", "")
 		nf.maxDecimals = len(decimals)
 		nf.minDecimals = strings.LastIndexByte(decimals, '0') + 1
 		digits = digits[:i]
-- 
2.43.0


From 975a67e5177339b84ac6dc4c902809276757d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 50/60] fix: a stream of an embedded document could be opened
 instead of the root storage's

---
 xls/cfb/cfb.go       | 21 ++++++++++++++++++++-
 xls/cfb/interface.go | 24 ++++++++++++++++--------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index bdb6322..ece8b9d 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -288,12 +288,31 @@ func (d *Document) buildDirs(sector []byte) {
 			*/
 		case typeUnknown:
 			// unused entry
-			continue
 		}
 		d.dir = append(d.dir, dirent)
 	}
 }
 
+// inRoot reports which directory entries are in the root storage itself.
+func (d *Document) inRoot() []bool {
+	res := make([]bool, len(d.dir))
+	var todo []uint32
+	for _, e := range d.dir {
+		if e.ObjectType == typeRootStorage {
+			todo = append(todo, e.ChildID)
+		}
+	}
+	for len(todo) > 0 {
+		id := todo[len(todo)-1]
+		todo = todo[:len(todo)-1]
+		if int64(id) < int64(len(res)) && !res[id] {
+			res[id] = true
+			todo = append(todo, d.dir[id].LeftSiblingID, d.dir[id].RightSiblingID)
+		}
+	}
+	return res
+}
+
 // getStream returns the sectors of a stream in regular sectors.
 func (d *Document) getStream(sid uint32, size uint64) ([][]byte, error) {
 	if size > uint64(len(d.data)) {
diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index 58fe5b3..ab2baf5 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -32,16 +32,24 @@ func (d *Document) List() ([]string, error) {
 	return res, nil
 }
 
-// Open the named stream contained in the document.
+// Open the named stream contained in the document. If there are several, then one
+// in the root storage is preferred to those of other (embedded) documents.
 func (d *Document) Open(name string) (io.ReadSeeker, error) {
-	for _, e := range d.dir {
-		if e.String() == name && e.ObjectType == typeStream {
-			if e.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
-				return d.getMiniStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
-			} else if e.StreamSize != 0 {
-				return d.getStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
+	var found *directory
+	inRoot := d.inRoot()
+	for i, e := range d.dir {
+		if e.ObjectType == typeStream && e.String() == name && (found == nil || inRoot[i]) {
+			found = e
+			if inRoot[i] {
+				break
 			}
 		}
 	}
-	return nil, fmt.Errorf("cfb: stream '%s' not found", name)
+	if found == nil {
+		return nil, fmt.Errorf("cfb: stream '%s' not found", name)
+	}
+	if found.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
+		return d.getMiniStreamReader(uint32(found.StartingSectorLocation), found.StreamSize)
+	}
+	return d.getStreamReader(uint32(found.StartingSectorLocation), found.StreamSize)
 }
-- 
2.43.0


From 212cd3aad3fc2454a062485e33e3e1b0c0d8e369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 51/60] fix: names of xlsx parts are not case-sensitive

---
 xlsx/xlsx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 20993b0..9c06fd1 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -148,7 +148,8 @@ func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 		log.Println("    openXML", name)
 	}
 	for _, zf := range d.r.File {
-		if zf.Name == name {
+		// NB the names of parts are not case-sensitive
+		if strings.EqualFold(zf.Name, name) {
 			zfr, err := zf.Open()
 			if err != nil {
 				return nil, nil, err
-- 
2.43.0


From d43c590522392a7bdc8812b0f2cd3cd53047b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:14 +0000
Subject: [PATCH 52/60] fix: wrapped errors were recognised as the second one
 of a set only

---
 errs.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/errs.go b/errs.go
index 784a551..d159572 100644
--- a/errs.go
+++ b/errs.go
@@ -35,7 +35,27 @@ func (e errx) Unwrap() error {
 	return nil
 }
 
-// WrapErr wraps a set of errors.
+// Is reports whether any of the wrapped errors matches the target.
+func (e errx) Is(target error) bool {
+	for _, x := range e.errs {
+		if errors.Is(x, target) {
+			return true
+		}
+	}
+	return false
+}
+
+// As finds the first of the wrapped errors that matches the target.
+func (e errx) As(target interface{}) bool {
+	for _, x := range e.errs {
+		if errors.As(x, target) {
+			return true
+		}
+	}
+	return false
+}
+
+// WrapErr wraps a set of errors. The message is that of the first one.
 func WrapErr(e ...error) error {
 	if len(e) == 1 {
 		return e[0]
-- 
2.43.0


From cf19c67f5a059d2b06161e23c8497ace5466f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 53/60] fix: errors reading the relationships of an xlsx sheet
 were ignored

A sheet whose relationships part is damaged lost its hyperlinks without
an error.
---
 xlsx/sheets.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index ec51a60..5a3d5ec 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -38,6 +38,9 @@ func (s *Sheet) parseSheet() error {
 	sub := strings.TrimSuffix(s.docname, base)
 	relsname := filepath.Join(sub, "_rels", base+".rels")
 	dec, clo, err := s.d.openXML(relsname)
+	if err != nil && err != io.EOF {
+		return err
+	}
 	if err == nil {
 		// rels might not exist for every sheet
 		tok, err := dec.RawToken()
@@ -50,6 +53,9 @@ func (s *Sheet) parseSheet() error {
 			}
 		}
 		clo.Close()
+		if err != io.EOF {
+			return err
+		}
 	}
 
 	dec, clo, err = s.d.openXML(s.docname)
-- 
2.43.0


From e2c32386344f77136d1fb07fcfe9420b5a30f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 54/60] fix: incomplete sectors of a truncated compound file
 were taken for complete ones

An incomplete sector in the middle of a stream made the rest of the stream
move forward, and one of the directory or of an allocation table dropped
entries.
---
 xls/cfb/cfb.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index ece8b9d..0ceac28 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -168,7 +168,7 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		if err != nil {
 			return err
 		}
-		if len(d.fat) >= numSectors*numFATentries {
+		if len(sector) < numFATentries*4 || len(d.fat) >= numSectors*numFATentries {
 			return errCorrupt
 		}
 		for ; len(sector) >= 4; sector = sector[4:] {
@@ -250,7 +250,7 @@ func (d *Document) walkChain(sid uint32, fn func([]byte)) error {
 		if err != nil {
 			return err
 		}
-		if n > len(d.fat) || int64(sid) >= int64(len(d.fat)) {
+		if n > len(d.fat) || int64(sid) >= int64(len(d.fat)) || len(sector) < 1<<d.header.SectorShift {
 			return errCorrupt
 		}
 		fn(sector)
@@ -332,6 +332,9 @@ func (d *Document) getStream(sid uint32, size uint64) ([][]byte, error) {
 		}
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
+		} else if size > uint64(len(slice)) && len(slice) < 1<<d.header.SectorShift {
+			// only the last sector of a stream may be incomplete
+			return nil, errCorrupt
 		}
 		size -= uint64(len(slice))
 		streamData = append(streamData, slice)
@@ -386,6 +389,8 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 		}
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
+		} else if size > uint64(len(slice)) && int64(len(slice)) < miniSecSize {
+			return nil, errCorrupt
 		}
 		size -= uint64(len(slice))
 		streamData = append(streamData, slice)
-- 
2.43.0


From 1f586a9ae25085c48c028a969e6ee654cd69de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:49 +0000
Subject: [PATCH 55/60] fix: damaged xls files were left to the text readers

A workbook stream that could not be read, or an incomplete header, was
reported as another format, so that the common open call went on and
returned the bytes of the file as rows of text.
---
 xls/cfb/cfb.go       | 3 +++
 xls/cfb/interface.go | 6 +++++-
 xls/xls.go           | 5 ++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 0ceac28..83f8b6c 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -114,6 +114,9 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	h := &header{}
 	err = binary.Read(br, binary.LittleEndian, h)
+	if err != nil && len(d.data) >= 8 && binary.LittleEndian.Uint64(d.data) == 0xe11ab1a1e011cfd0 {
+		return errCorrupt
+	}
 	if h.Signature != 0xe11ab1a1e011cfd0 {
 		return grate.ErrNotInFormat // errors.New("ole2: invalid format")
 	}
diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index ab2baf5..81927af 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -1,11 +1,15 @@
 package cfb
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
 )
 
+// ErrNotFound is returned when there is no stream with the name.
+var ErrNotFound = errors.New("cfb: stream not found")
+
 // Open a Compound File Binary Format document.
 func Open(filename string) (*Document, error) {
 	d := &Document{}
@@ -46,7 +50,7 @@ func (d *Document) Open(name string) (io.ReadSeeker, error) {
 		}
 	}
 	if found == nil {
-		return nil, fmt.Errorf("cfb: stream '%s' not found", name)
+		return nil, fmt.Errorf("%w: '%s'", ErrNotFound, name)
 	}
 	if found.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
 		return d.getMiniStreamReader(uint32(found.StartingSectorLocation), found.StreamSize)
diff --git a/xls/xls.go b/xls/xls.go
index e46aab3..e557160 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -73,9 +73,12 @@ func Open(filename string) (src grate.Source, err error) {
 	}
 
 	rdr, err := doc.Open("Workbook")
-	if err != nil {
+	if errors.Is(err, cfb.ErrNotFound) {
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
+	if err != nil {
+		return nil, err
+	}
 	raw, err := io.ReadAll(rdr)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 45c64d68e8f5e8f6f6c86fe18000f7f542b0b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:49 +0000
Subject: [PATCH 56/60] fix: damaged xlsx files were left to the text readers

An archive that is cut off, or whose relationships are damaged, was
reported as another format, so that the common open call went on and
returned the bytes of the file as rows of text.
---
 xlsx/xlsx.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 9c06fd1..35e37c3 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -63,6 +63,11 @@ func Open(filename string) (src grate.Source, err error) {
 	}
 	z, err := zip.NewReader(f, info.Size())
 	if err != nil {
+		magic := make([]byte, 4)
+		if n, _ := f.ReadAt(magic, 0); string(magic[:n]) == "PK\x03\x04" {
+			// an archive, but cut off or damaged
+			return nil, err
+		}
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
 	d := &Document{
@@ -75,13 +80,16 @@ func Open(filename string) (src grate.Source, err error) {
 
 	// parse the primary relationships
 	dec, c, err := d.openXML("_rels/.rels")
-	if err != nil {
+	if err == io.EOF {
 		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
 	}
+	if err != nil {
+		return nil, err
+	}
 	err = d.parseRels(dec, "")
 	c.Close()
 	if err != nil {
-		return nil, grate.WrapErr(err, grate.ErrNotInFormat)
+		return nil, err
 	}
 	if d.primaryDoc == "" {
 		return nil, errors.New("xlsx: invalid document")
-- 
2.43.0


From e860881b1ece152257d79f7b129e86cfcd5e3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 57/60] fix: grate2tsv reported sheets it could not write as
 fine

---
 cmd/grate2tsv/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index d219da2..7f471f2 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -274,10 +274,12 @@ func processFile(fn string) ([]stats, error) {
 				ps.NumRows++
 			}
 		}
-		results = append(results, ps)
 		if ox != nil {
+			// NB any earlier write error is returned again
+			ps.Err = ox.b.Flush()
 			cleanup <- ox
 		}
+		results = append(results, ps)
 	}
 	return results, nil
 }
-- 
2.43.0


From 90b7a23a0b974d2a57b9c4f41588ab91360a4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 58/60] fix: grater ignored that its output could not be
 written

---
 cmd/grater/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/grater/main.go b/cmd/grater/main.go
index 07d6b05..02b0195 100644
--- a/cmd/grater/main.go
+++ b/cmd/grater/main.go
@@ -49,7 +49,10 @@ func main() {
 					fmt.Println(strings.Join(dtypes, "\t"))
 				}
 				row := sheet.Strings()
-				fmt.Println(strings.Join(row, "\t"))
+				if _, err := fmt.Println(strings.Join(row, "\t")); err != nil {
+					fmt.Fprintln(os.Stderr, err)
+					os.Exit(1)
+				}
 			}
 		}
 		wb.Close()
-- 
2.43.0


From 84e17ccc2e529fadc9752be94eb62d8c610ddc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:00 +0000
Subject: [PATCH 59/60] fix: xlsx: a part that ends before its elements do is
 an error

---
 xlsx/types.go    | 26 +++++++++++++++++++++++++-
 xlsx/workbook.go |  8 ++++----
 xlsx/xlsx.go     |  4 ++--
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/xlsx/types.go b/xlsx/types.go
index 0fce760..3528e57 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -2,6 +2,7 @@ package xlsx
 
 import (
 	"encoding/xml"
+	"io"
 	"regexp"
 	"strconv"
 	"strings"
@@ -109,8 +110,31 @@ func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	return res
 }
 
+// partReader reads the XML tokens of a part, which must not end before its elements do.
+type partReader struct {
+	*xml.Decoder
+	depth int
+	begun bool
+}
+
+// RawToken returns the next token, or io.ErrUnexpectedEOF if elements are still open.
+func (r *partReader) RawToken() (xml.Token, error) {
+	tok, err := r.Decoder.RawToken()
+	if err == io.EOF && (r.depth > 0 || !r.begun) {
+		err = io.ErrUnexpectedEOF
+	}
+	switch tok.(type) {
+	case xml.StartElement:
+		r.depth++
+		r.begun = true
+	case xml.EndElement:
+		r.depth--
+	}
+	return tok, err
+}
+
 // skipElement skips the rest of an element. NB any error will come up again with the next token.
-func skipElement(dec *xml.Decoder) {
+func skipElement(dec *partReader) {
 	for depth := 1; depth > 0; {
 		tok, err := dec.RawToken()
 		if err != nil {
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 6f51c47..0013908 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -12,7 +12,7 @@ import (
 	"github.com/pbnjay/grate"
 )
 
-func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
+func (d *Document) parseRels(dec *partReader, basedir string) error {
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
@@ -56,7 +56,7 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 	return err
 }
 
-func (d *Document) parseWorkbook(dec *xml.Decoder) error {
+func (d *Document) parseWorkbook(dec *partReader) error {
 	tok, err := dec.RawToken()
 	for ; err == nil; tok, err = dec.RawToken() {
 		switch v := tok.(type) {
@@ -107,7 +107,7 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 	return err
 }
 
-func (d *Document) parseStyles(dec *xml.Decoder) error {
+func (d *Document) parseStyles(dec *partReader) error {
 	baseNumFormats := []string{}
 	d.xfs = d.xfs[:0]
 
@@ -192,7 +192,7 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 	return err
 }
 
-func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
+func (d *Document) parseSharedStrings(dec *partReader) error {
 	// only the text of a string and its runs counts, not its phonetic guide
 	inText, inPhonetic := false, false
 	var val, run strings.Builder
diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 35e37c3..5b51c15 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -151,7 +151,7 @@ func Open(filename string) (src grate.Source, err error) {
 	return d, nil
 }
 
-func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
+func (d *Document) openXML(name string) (*partReader, io.Closer, error) {
 	if grate.Debug {
 		log.Println("    openXML", name)
 	}
@@ -162,7 +162,7 @@ func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 			if err != nil {
 				return nil, nil, err
 			}
-			dec := xml.NewDecoder(zfr)
+			dec := &partReader{Decoder: xml.NewDecoder(zfr)}
 			return dec, zfr, nil
 		}
 	}
-- 
2.43.0


From 92dd15c22ba246d52e946a7f5c4403e5ea576414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 60/60] fix: a zero section with only ? placeholders shows just
 its literals

---
 commonxl/formats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index aa1f3d7..e075667 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -269,6 +269,7 @@ func makeSection(toks []fmtToken) (FmtFunc, CellType) {
 	nf.commas = strings.Contains(digits, ",")
 	nf.minDigits = strings.Count(digits, "0")
 	nf.point = frac
+	nf.blankZero = !frac && strings.Trim(digits, "?,") == ""
 	if i2+2 < len(toks) && tokensHave(toks[i2:i2+1], "Ee") && tokensHave(toks[i2+1:i2+2], "+-") {
 		nf.exponent = true
 		ctype = FloatCell
@@ -293,6 +294,7 @@ type numberFormat struct {
 	minDigits                int
 	minDecimals, maxDecimals int
 	point, commas, exponent  bool
+	blankZero                bool // no digits are shown for zero
 }
 
 func (nf *numberFormat) format(x *Formatter, v interface{}) string {
@@ -340,6 +342,9 @@ func (nf *numberFormat) format(x *Formatter, v interface{}) string {
 	}
 	if strings.Trim(s, "0.") == "" {
 		isNeg = false
+		if nf.blankZero && !nf.exponent {
+			digits = ""
+		}
 	}
 	for len(decimals) > nf.minDecimals && strings.HasSuffix(decimals, "0") {
 		decimals = decimals[:len(decimals)-1]
-- 
2.43.0

