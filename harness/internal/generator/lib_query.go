package generator

import (
	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres"
	"github.com/frk/gosql/internal/postgres/oid"
)

// vpUser is the record most model programs use.
const vpUser = `
import "github.com/frk/gosql"
var _ gosql.Conn
type User struct {
	Id int ` + "`sql:\"id,pk\"`" + `
	Name string ` + "`sql:\"name\"`" + `
	Active bool ` + "`sql:\"active\"`" + `
}
`

// vpUsers is the database with the table users (u), also known as p.
func vpUsers() *postgres.DB {
	db := vpDatabase()
	vpFlag := vpColumn("flag", vpBoolean)
	vpFlag.HasNotNull = false
	vpTable(db, []analysis.RelIdent{{Name: "users", Alias: "u"}, {Name: "users"}, {Name: "users", Alias: "p"}, {Name: "users", Alias: "r"}, {Name: "users", Alias: "s"}},
		vpColumn("id", vpInt4), vpColumn("name", vpText), vpColumn("active", vpBoolean), vpColumn("ref", vpInt4), vpColumn("names", vpTextArr), vpColumn("lit", vpText), vpFlag)
	postgres.VPCatalog(db).Procs["lower"] = []*postgres.Proc{{Name: "lower", ArgType: oid.Text, RetType: oid.Text}}
	return db
}

// vpQ builds the declaration of a query type.
func vpQ(fields ...string) string {
	s := "type Q struct {\n"
	if len(fields) > 0 && len(fields[0]) > 5 && fields[0][:5] == "type " {
		s, fields = "type "+fields[0][5:]+" struct {\n", fields[1:]
	}
	for _, f := range fields {
		s += "\t" + f + "\n"
	}
	return s + "}\n"
}

// vpTagged is a field with a tag.
func vpTagged(field, key, tag string) string {
	return field + " `" + key + ":\"" + tag + "\"`"
}

// vpGenerate analyses and generates the program and stops when it is rejected.
func vpGenerate(db *postgres.DB, src string, names ...string) *vpProgram {
	return vpGenerateWith(db, src, func(*vpProgram) {}, names...)
}

// vpGenerateWith lets the checked program be changed before it is generated.
func vpGenerateWith(db *postgres.DB, src string, change func(*vpProgram), names ...string) *vpProgram {
	p := vpLoad(src)
	err := p.analyse(db, names...)
	if err != nil {
		vpObs("rejected", true)
		vpObs("source", src)
	}
	vpAssert(err == nil, "a valid declaration is rejected")
	if err != nil {
		vpSkip()
	}
	vpObs("source", src)
	change(p)
	p.generate()
	return p
}

// vpExec runs the generated method of the named query type.
func (p *vpProgram) exec(rt *vpRT, name string) (*vpCell, vpVal) {
	rt.pkg = p.pkg
	q := &vpCell{path: "q", v: rt.instance(p.pkg.Scope().Lookup(name).Type(), "q", rt.nilPtrs)}
	args := []vpVal{vpLeaf("conn")}
	if p.cfg.MethodWithContext.Value {
		args = []vpVal{vpLeaf("ctx"), vpLeaf("conn")}
	}
	res := rt.run(p.method(name, p.cfg.MethodName.Value), vpPtr{q}, args...)
	vpAssert(len(rt.calls) == 1, "the query is not sent exactly once")
	if len(rt.calls) != 1 {
		vpSkip()
	}
	return q, res
}

// vpLiteral replaces the column lit on the right of a comparison by a literal: the
// type of a literal is asked of the database, which the model cannot do.
func vpLiteral(lit string) func(p *vpProgram) {
	return func(p *vpProgram) {
		for _, ti := range p.tis {
			for _, w := range ti.Where {
				if c, ok := w.(*postgres.ColumnConditional); ok && c.RHSColIdent.Name == "lit" {
					c.RHSColIdent, c.RHSLiteral = analysis.ColIdent{}, lit
				}
			}
			for _, j := range ti.Joins {
				for _, w := range j {
					if c, ok := w.(*postgres.ColumnConditional); ok && c.RHSColIdent.Name == "lit" {
						c.RHSColIdent, c.RHSLiteral = analysis.ColIdent{}, lit
					}
				}
			}
		}
	}
}

// vpRejectedBy checks that the tool refuses the declaration.
func vpRejectedBy(db *postgres.DB, src, name, msg string) {
	p := vpLoad(src)
	err := p.analyse(db, name)
	vpObs("source", src)
	vpAssert(err != nil, msg)
}
