// Package model is what a generated workbook means, independent of how any file
// stores it.
package model

// Kind of a cell's value.
type Kind int

// kinds of values
const (
	Blank Kind = iota
	Num
	Bool
	Err
	Text
)

// Cell is a stored value at a zero-based position.
type Cell struct {
	R, C    int
	K       Kind
	F       float64
	B       bool
	S       string // the text, or the code of the error
	XF      int    // index into Book.XFs
	Formula bool   // the value is the cached result of a formula

	// PlainInt is set by a writer that has stored the number in an integer encoding
	PlainInt bool
}

// Range of cells, inclusive.
type Range struct{ R1, C1, R2, C2 int }

// In returns true if a cell is in the range.
func (r Range) In(row, col int) bool {
	return row >= r.R1 && row <= r.R2 && col >= r.C1 && col <= r.C2
}

// Overlaps returns true if the ranges have a cell in common.
func (r Range) Overlaps(o Range) bool {
	return r.R1 <= o.R2 && o.R1 <= r.R2 && r.C1 <= o.C2 && o.C1 <= r.C2
}

// Link is a hyperlink.
type Link struct {
	Range
	Target   string // external target, if any
	Location string // location inside of the target or workbook, if any
	Name     string // display name, if any
	File     bool   // the target is a file path
}

// Sheet of cells. At most one cell is at each position.
type Sheet struct {
	Name       string
	Hidden     int // 0 visible, 1 hidden, 2 very hidden
	Rows, Cols int // the declared extent, 0 if there is nothing
	Cells      []*Cell
	Merges     []Range
	Links      []Link
	Lost       bool // its data is missing from the file
}

// Format is a number format of the workbook.
type Format struct {
	ID   int
	Code string
	Date bool // it is a date format
	// Check the display of a number, if known
	Check func(s string, f float64) error
	// TextAs shows text by the text section of the format, if it has one
	TextAs func(s string) string
}

// Book is a workbook.
type Book struct {
	Sheets   []*Sheet
	Formats  []Format
	XFs      []int // number format of each cell style, the first being General
	Date1904 bool
}

// Format of the workbook.
func (b *Book) Format(id int) *Format {
	for i, f := range b.Formats {
		if f.ID == id {
			return &b.Formats[i]
		}
	}
	return nil
}

// Cell at a position, or nil.
func (s *Sheet) Cell(r, c int) *Cell {
	for _, x := range s.Cells {
		if x.R == r && x.C == c {
			return x
		}
	}
	return nil
}

// Errors are the error codes of both formats, and how BIFF8 numbers them.
var Errors = []struct {
	Code string
	Biff byte
}{
	{"#NULL!", 0x00}, {"#DIV/0!", 0x07}, {"#VALUE!", 0x0F}, {"#REF!", 0x17}, {"#NAME?", 0x1D}, {"#NUM!", 0x24}, {"#N/A", 0x2A}, {"#GETTING_DATA", 0x2B},
}

// BiffError returns the number of an error.
func BiffError(code string) byte {
	for _, e := range Errors {
		if e.Code == code {
			return e.Biff
		}
	}
	panic("unknown error " + code)
}
