package read

import "strings"

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

var reserved = map[string]map[string]bool{
	"Go":         set("break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var"),
	"TypeScript": set("break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with implements interface let package private protected public static yield any boolean number string symbol never object unknown undefined bigint"),
	"C":          set("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool _Complex _Imaginary"),
	"Java":       set("abstract assert boolean break byte case catch char class const continue default do double else enum extends final finally float for goto if implements import instanceof int interface long native new package private protected public return short static strictfp super switch synchronized this throw throws transient try void volatile while true false null _"),
	"Rust":       set("as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return Self self static struct super trait true type unsafe use where while abstract async await become box do final macro override priv try typeof unsized virtual yield _"),
}

// Reserved tells whether w is a reserved word of the language.
func Reserved(lang, w string) bool { return reserved[lang][w] }

// ReservedWords lists the reserved words of a language.
func ReservedWords(lang string) []string {
	var l []string
	for w := range reserved[lang] {
		l = append(l, w)
	}
	return l
}

// Builtin tells whether a type name is built into the language (or always
// imported by the generated file).
func Builtin(lang, n string) bool {
	switch lang {
	case "Go":
		return goBuiltin[n]
	case "TypeScript":
		return TSBuiltin[n]
	case "C":
		for _, w := range strings.Fields(n) {
			if !cWords[w] {
				return false
			}
		}
		return n != ""
	case "Java":
		return javaBuiltin[n]
	}
	return rustBuiltin[n]
}

var goBuiltin = set("string bool int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 float32 float64 byte interface{} time.Time xml.Name")
var javaBuiltin = set("String Boolean Byte Short Integer Long Float Double Character QName void")
var rustBuiltin = set("String bool char i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64")
