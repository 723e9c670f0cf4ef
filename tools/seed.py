from seedlib import *

bug("P07-leading-blank", "P07", "several queries of which the first is blank",
    "the joined text starts with a dangling 'and'",
    [("miniquery/join.go", "	for _, v := range s {", "	for i, v := range s {"),
     ("miniquery/join.go", "		if sb.Len() != 0 {", "		if i != 0 {")],
    prog([MQ], '''
func main() {
	got := miniquery.Join([]string{" ", "a=1", "b=2"})
	check(got == "(a=1) and (b=2)", "got %q", got)
}
'''))

bug("P06-long-reference", "P06", "a reference with more than two names",
    "Build writes only the first two names of a reference",
    [("miniquery/node.go", '''			buf.WriteString(strings.Join(node.Names, "."))
		case FunctionExpressionType:
			buf.WriteString(node.Name)
			buf.WriteRune('(')''', '''			buf.WriteString(strings.Join(node.Names[:2], "."))
		case FunctionExpressionType:
			buf.WriteString(node.Name)
			buf.WriteRune('(')''')],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("a.b.c = 1")
	check(err == nil, "%v", err)
	got := miniquery.Build(n)
	check(got == "a.b.c == 1", "got %q", got)
}
'''))

bug("P08-keeps-visiting", "P08", "an error in a function argument that is not the last one",
    "the default function callback visits the remaining arguments after an error",
    [("miniquery/visitor.go", '''			for _, n := range node.Params {
				if err = v.Visit(ctx, n); err != nil {
					return
				}
			}
			return
		}
	}
	binary :=''', '''			for _, n := range node.Params {
				if e := v.Visit(ctx, n); e != nil && err == nil {
					err = e
				}
			}
			return
		}
	}
	binary :=''')],
    prog(["context", "errors", MQ], '''
func main() {
	n, err := miniquery.Parse("f(a,b,c)")
	check(err == nil, "%v", err)
	seen := ""
	v := &miniquery.Visitor{IdentifierNode: func(ctx context.Context, n *miniquery.Node) error {
		seen += n.Name
		if n.Name == "b" {
			return errors.New("stop")
		}
		return nil
	}}
	v.Init()
	err = v.Visit(context.Background(), n)
	check(err != nil && seen == "ab", "visited %q, error %v", seen, err)
}
'''))

bug("G01-inline-bool", "G01", "a boolean literal",
    "booleans are written into the SQL text instead of being bound",
    [("gormq/miniquery.go", '''		buf.WriteRune('?')
		addValue(node.Value())
''', '''		if node.ValueType == miniquery.BooleanValueType {
			buf.WriteString(fmt.Sprint(node.Bool))
			break
		}
		buf.WriteRune('?')
		addValue(node.Value())
''')],
    gorm('''
func main() {
	s, vars, err := where("admin = true and username = 'a'")
	check(err == nil, "%v", err)
	check(len(vars) == 2, "%s %v", s, vars)
}
'''))

bug("G02-sorted-bounds", "G02", "a between whose low bound is the larger integer",
    "the bounds are swapped, so an empty range selects rows",
    [("gormq/miniquery.go", '''		err = visit(node.Left)
		if err == nil {
			buf.WriteRune(' ')
			err = visit(node.Op)
		}
		if err == nil {
			buf.WriteRune(' ')
			err = visit(node.Params[0])
		}
		if err == nil {
			buf.WriteString(" and ")
			err = visit(node.Params[1])
		}
''', '''		low, high := node.Params[0], node.Params[1]
		if low.Int > high.Int {
			low, high = high, low
		}
		err = visit(node.Left)
		if err == nil {
			buf.WriteRune(' ')
			err = visit(node.Op)
		}
		if err == nil {
			buf.WriteRune(' ')
			err = visit(low)
		}
		if err == nil {
			buf.WriteString(" and ")
			err = visit(high)
		}
''')],
    gorm('''
func main() {
	s, vars, err := where("level between 9 and 3")
	check(err == nil, "%v", err)
	check(len(vars) == 2 && vars[0] == 9 && vars[1] == 3, "%s %v", s, vars)
}
'''))

bug("G03-no-values", "G03", "a valid query without any literal",
    "a condition without bind values is dropped and all rows are selected",
    [("gormq/miniquery.go", '''	if err != nil {
		_ = db.AddError(err)
	} else {
		db = db.Where(''', '''	if err != nil {
		_ = db.AddError(err)
	} else if len(vals) > 0 {
		db = db.Where(''')],
    gorm('''
func main() {
	s, _, err := where("username is null")
	check(err == nil && s != "", "%q %v", s, err)
}
'''))

bug("G04-relation-fallback", "G04", "a field behind a relation that only the outer model has",
    "the name is resolved in the wrong model instead of being an error",
    [("gormq/miniquery.go", '''			if name, ok = getDBName(r.FieldSchema, fieldName); !ok {
				return''', '''			if name, ok = getDBName(r.FieldSchema, fieldName); !ok {
				name, ok = getDBName(r.Schema, fieldName)
			}
			if !ok {
				return''')],
    gorm('''
func main() {
	s, _, err := where("Profile.username = 'a'")
	check(err != nil, "%s", s)
}
'''))

bug("G05-join-per-field", "G05", "two different fields of one relation in a query",
    "the relation is joined once per field",
    [("gormq/miniquery.go", '''			if _, ok := joined[s]; !ok {
				db = db.Joins(s)
			}
			joined[s] = append(joined[s], name)
''', '''			key := s + "." + name
			if _, ok := joined[key]; !ok {
				db = db.Joins(s)
			}
			joined[key] = append(joined[key], name)
''')],
    gorm('''
func main() {
	joins := 0
	r := find(func(db *gorm.DB) *gorm.DB {
		db = gormq.WireMiniQuery(db, "Profile.age > 1 and Profile.phone = 'x' and Profile.age < 9")
		joins = len(db.Statement.Joins)
		return db
	})
	s := r.Statement.SQL.String()
	check(r.Error == nil && joins == 1 && strings.Contains(s, "JOIN"), "%v %d %s", r.Error, joins, s)
}
'''))

ENT = ["entgo.io/ent/dialect", "entgo.io/ent/dialect/sql", "entgo.io/ent/dialect/sql/sqlgraph", EQ]
SCHEMA = '''
func graph(inverse bool) *sqlgraph.Node {
	pet := &sqlgraph.Node{Type: "Pet"}
	pet.Table = "pets"
	pet.ID = &sqlgraph.FieldSpec{Column: "id"}
	user := &sqlgraph.Node{Type: "User"}
	user.Table = "users"
	user.ID = &sqlgraph.FieldSpec{Column: "id"}
	g := &sqlgraph.Schema{Nodes: []*sqlgraph.Node{user, pet}}
	g.MustAddE("pets", &sqlgraph.EdgeSpec{
		Rel: sqlgraph.M2M, Inverse: inverse, Table: "user_pets", Columns: []string{"user_id", "pet_id"},
	}, "User", "Pet")
	return user
}

func build(mb *entmq.MiniQLToEntSQLBuilder) (string, []interface{}, error) {
	mb.SetDialect(dialect.Postgres)
	s, args := mb.Query()
	return s, args, mb.Err()
}

var _ sql.Builder
'''


def ent(body, imports=()):
    return prog(sorted(set(ENT) | set(imports)), SCHEMA + body)


bug("S05-nested-cast", "S05", "casting disabled, an edge filter with an integer",
    "literals inside an edge filter are cast although casting is disabled",
    [("entmq/entsql.go", "							DisableTypeCasting: mb.DisableTypeCasting,\n", "")
     , ("entmq/entsql.go", "							ast:                params[1],\n							Node:               edge.To,\n",
        "							ast:  params[1],\n							Node: edge.To,\n")],
    ent('''
func main() {
	s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "has_edge(pets, age > 3)", Node: graph(false), DisableTypeCasting: true})
	check(err == nil, "%v", err)
	check(!strings.Contains(s, "::"), "%s", s)
}
''', ["strings"]))

bug("S06-own-builder", "S06", "a target builder and an is-null predicate",
    "the predicate operator is written to the own builder",
    [("entmq/entsql.go", '''		err = mb.visitOperand(node, node.Left)
		s.WriteOp(op)
''', '''		err = mb.visitOperand(node, node.Left)
		mb.WriteOp(op)
''')],
    ent('''
func main() {
	b := &sql.Builder{}
	b.SetDialect(dialect.Postgres)
	s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "a = 1 and b is null", SQLBuilder: b})
	check(err == nil && s == "", "%q %v", s, err)
	check(b.String() == `"a" = $1::int AND "b" IS NULL`, "%s", b.String())
}
'''))

bug("S03-error-elsewhere", "S03", "a target builder and an unsupported construct",
    "the error is not reported by the builder that was asked for the query",
    [("entmq/entsql.go", '''	if err != nil {
		mb.AddError(err)
		return "", nil
	}
	return mb.Builder.Query()
''', '''	if err != nil {
		if mb.SQLBuilder != nil {
			mb.SQLBuilder.AddError(err)
		} else {
			mb.AddError(err)
		}
		return "", nil
	}
	return mb.Builder.Query()
''')],
    ent('''
func main() {
	b := &sql.Builder{}
	b.SetDialect(dialect.Postgres)
	_, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "lower(a) = 'x'", SQLBuilder: b})
	check(err != nil, "no error, target has %q", b.String())
}
'''))

bug("S04-inverse", "S04", "a filter on an inverse edge",
    "the direction of the edge is ignored when a filter is given",
    [("entmq/entsql.go", '''					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
				), func''', '''					sqlgraph.Edge(edge.Spec.Rel, false, edge.Spec.Table, edge.Spec.Columns...),
				), func''')],
    ent('''
func main() {
	get := func(inverse bool) string {
		s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "has_edge(pets, age > 3)", Node: graph(inverse)})
		check(err == nil, "%v", err)
		return s
	}
	check(get(true) != get(false), "%s", get(true))
}
'''))

bug("S01-bare-name", "S01", "a column name that already has an underscore",
    "names in snake case are written unquoted",
    [("entmq/entsql.go", "		s.Ident(xstrings.ToSnakeCase(node.Name))\n",
      '''		if name := xstrings.ToSnakeCase(node.Name); name == node.Name && strings.Contains(name, "_") {
			s.WriteString(name)
		} else {
			s.Ident(name)
		}
''')],
    ent('''
func main() {
	s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "current_user = 'x'"})
	check(err == nil && s == `"current_user" = $1`, "%s %v", s, err)
}
'''))

bug("Q01-swapped-operands", "Q01", "a literal on the left of an ordering comparison",
    "the field is moved to the left without turning the operator around",
    [("entmq/entql.go", '''			mb.push(&entql.BinaryExpr{
				Op: op,
				X:  left,
				Y:  right,
			})
''', '''			if _, ok := right.(*entql.Field); ok {
				if _, ok = left.(*entql.Value); ok {
					left, right = right, left
				}
			}
			mb.push(&entql.BinaryExpr{
				Op: op,
				X:  left,
				Y:  right,
			})
''')],
    prog([EQ], '''
func main() {
	p, err := entmq.BuildEntQL("1 < a")
	check(err == nil && p.String() == "1 < a", "%v %v", p, err)
}
'''))

bug("Q02-blank-query", "Q02", "a query of blanks only",
    "a blank query gives neither a predicate nor an error",
    [("entmq/entql.go", 'import (\n	"log/slog"\n', 'import (\n	"log/slog"\n	"strings"\n'),
     ("entmq/entql.go", '	if mb.Query == "" {', '	if strings.TrimSpace(mb.Query) == "" {')],
    prog([EQ], '''
func main() {
	p, err := entmq.BuildEntQL("  ")
	check(p != nil || err != nil, "neither")
}
'''))

bug("Q03-continues", "Q03", "a broken query that is not the last of the list",
    "the remaining queries are applied after one failed",
    [("entmq/entql.go", "func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) error {\n", "func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) (failed error) {\n"),
     ("entmq/entql.go", '''			return errors.Wrapf(err, "failed to apply query: %q", v)
		}
''', '''			failed = errors.Wrapf(err, "failed to apply query: %q", v)
			continue
		}
'''),
     ("entmq/entql.go", '''		q.Where(p)
	}
	return nil
''', '''		q.Where(p)
	}
	return failed
''')],
    prog(["entgo.io/ent/entql", EQ], '''
type target []entql.P

func (t *target) Where(p entql.P) { *t = append(*t, p) }

func main() {
	t := &target{}
	err := entmq.ApplyEntQL(t, []string{"a=1", "a=", "b=1"})
	check(err != nil && len(*t) == 1, "%v %v", *t, err)
}
'''))

bug("X01-empty-list", "X01", "an empty list as an operand in ent SQL",
    "the Go value of an empty list is an untyped nil and the type assertion in the SQL translation panics",
    [("miniquery/node.go", '''	case ArrayValueType:
		var s []interface{}
''', '''	case ArrayValueType:
		if len(n.Array) == 0 {
			return nil
		}
		var s []interface{}
''')],
    ent('''
func main() {
	_, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "a in []"})
	check(err == nil, "%v", err)
}
'''))

bug("X02-filter-in-place", "X02", "a list of queries with a blank one that is used again",
    "blank queries are removed by moving the others inside the list of the caller",
    [("miniquery/join.go", '''	sb := strings.Builder{}
	for _, v := range s {
		if len(strings.TrimSpace(v)) == 0 {
			continue
		}
		if sb.Len() != 0 {
''', '''	sb := strings.Builder{}
	queries := s[:0]
	for _, v := range s {
		if len(strings.TrimSpace(v)) != 0 {
			queries = append(queries, v)
		}
	}
	for i, v := range queries {
		if i != 0 {
''')],
    prog([MQ], '''
func main() {
	list := []string{"a=1", "", "b=2"}
	first := miniquery.Join(list)
	again := miniquery.Join(list)
	check(first == again, "%s then %s", first, again)
}
'''))

bug("X03-map-order", "X03", "two fields whose names differ only in case",
    "the column is taken from the first field in map order",
    [("gormq/miniquery.go", "	for _, f := range st.Fields {\n", "	for _, f := range st.FieldsByName {\n")],
    gorm('''
type Item struct {
	ID  uint `gorm:"primarykey"`
	Foo string `gorm:"column:c1"`
	FOo string `gorm:"column:c2"`
	FoO string `gorm:"column:c3"`
	FOO string `gorm:"column:c4"`
}

func main() {
	for i := 0; i < 200; i++ {
		db, err := gorm.Open(sqlite.Open("file::memory:"), &gorm.Config{DryRun: true})
		check(err == nil, "open: %v", err)
		var out []Item
		s := db.Model(&Item{}).Scopes(gormq.ApplyMiniQuery("foo = 'a'")).Find(&out).Statement.SQL.String()
		check(strings.Contains(s, "`c1`"), "%s", s)
	}
}
'''))

bug("P02-repeated-name", "P02", "a reference that repeats a name",
    "equal neighbouring names of a reference are merged",
    [("miniquery/tree.go", '''	for _, node := range nodes {
		names = append(names, node.Name)
	}
''', '''	for i, node := range nodes {
		if i > 1 && node.Name == nodes[i-1].Name {
			continue
		}
		names = append(names, node.Name)
	}
''')],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("tree.parent.parent.id = 1")
	check(err == nil, "%v", err)
	check(len(n.Left.Names) == 4, "%v", n.Left.Names)
}
'''))

bug("P03-upper-and", "P03", "a logic operator written in upper case",
    "upper case 'AND' is not normalised",
    [("miniquery/tree.go", '''func (t *Tree) AddLogic(s string) {
	t.Push(&Node{
		Type:      OperationNodeType,
		Operation: NormalizeOperation(s),
	})
''', '''func (t *Tree) AddLogic(s string) {
	s = strings.TrimSpace(s)
	if v, ok := normalize[s]; ok {
		s = v
	}
	t.Push(&Node{
		Type:      OperationNodeType,
		Operation: s,
	})
''')],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("a=1 AND b=2")
	check(err == nil, "%v", err)
	check(n.Op.Operation == miniquery.OpAnd, "%q", n.Op.Operation)
}
'''))

bug("P04-big-integer", "P04", "an integer above 2^53",
    "integers are read as floating point numbers and lose digits",
    [("miniquery/tree.go", '''	i, err := strconv.Atoi(s)
	t.AddError(err)
''', '''	f, err := strconv.ParseFloat(s, 64)
	i := int(f)
	t.AddError(err)
''')],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("9007199254740993")
	check(err == nil, "%v", err)
	check(n.Int == 9007199254740993, "%d", n.Int)
}
'''))

bug("P05-tree-and-error", "P05", "an integer literal that does not fit",
    "the tree is returned together with the error",
    [("miniquery/parse.go", '''	if len(p.Errors) != 0 {
		return nil, p.Errors[0]
	}
	return p.Pop(), nil
''', '''	node := p.Pop()
	if len(p.Errors) != 0 {
		return node, p.Errors[0]
	}
	return node, nil
''')],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("a = 99999999999999999999")
	check(err != nil && n == nil, "%v %v", n, err)
}
'''))

bug("P01-lone-cr", "P01", "a lone carriage return as a blank",
    "a carriage return that is not followed by a line feed is rejected",
    [("miniquery/miniquery.peg.go", '''				l290:
					position, tokenIndex = position288, tokenIndex288
					if buffer[position] != rune('\\r') {
''', '''				l290:
					position, tokenIndex = position288, tokenIndex288
					if buffer[position] != rune('\\f') {
''')],
    prog([MQ], '''
func main() {
	_, err := miniquery.Parse("a = 1\\rand b = 2")
	check(err == nil, "%v", err)
}
'''))

bug("P01-name-with-z", "P01", "a name with a Z that is not its first letter",
    "an upper case Z inside a name ends the name",
    [("miniquery/miniquery.peg.go", '''								if c := buffer[position]; c < rune('A') || c > rune('Z') {''',
      '''								if c := buffer[position]; c < rune('A') || c >= rune('Z') {''')],
    prog([MQ], '''
func main() {
	_, err := miniquery.Parse("timeZone = 'x'")
	check(err == nil, "%v", err)
}
'''))

bug("P02-spread-list", "P02", "a list as the only argument of a call",
    "the elements of the list become the arguments",
    [("miniquery/tree.go", """	if n.Type == IdentifierNodeType && a.Type == ValueNodeType && a.ValueType == ArrayValueType {
""", """	if n.Type == IdentifierNodeType && a.Type == ValueNodeType && a.ValueType == ArrayValueType {
		if len(a.Array) == 1 && a.Array[0].ValueType == ArrayValueType {
			a = a.Array[0]
		}
""")],
    prog([MQ], """
func main() {
	n, err := miniquery.Parse("f([1,2])")
	check(err == nil, "%v", err)
	check(len(n.Params) == 1, "%v", n)
}
"""))

bug("P03-between-blanks", "P03", "not between with more than one blank between the words",
    "the blanks become part of the operator name",
    [("miniquery/tree.go", '''func (t *Tree) AddOperation(s string) {
	t.Push(&Node{
		Type:      OperationNodeType,
		Operation: NormalizeOperation(s),
	})
''', '''func (t *Tree) AddOperation(s string) {
	t.Push(&Node{
		Type:      OperationNodeType,
		Operation: strings.ToLower(strings.TrimSpace(s)),
	})
''')],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("a not  between 1 and 2")
	check(err == nil, "%v", err)
	check(n.Op.Operation == miniquery.OpNotBetween, "%q", n.Op.Operation)
}
'''))

bug("P04-trimmed-string", "P04", "a string literal with blanks at its ends",
    "blanks at the ends of a string literal are lost",
    [("miniquery/tree.go", '''		Str:       s,
''', '''		Str:       strings.TrimSpace(s),
''')],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("a = ' x '")
	check(err == nil && n.Right.Str == " x ", "%v %v", n, err)
}
'''))

bug("P04-one-error", "P04", "exactly one integer that does not fit",
    "a single error while reading the literals is ignored",
    [("miniquery/parse.go", "	if len(p.Errors) != 0 {", "	if len(p.Errors) > 1 {")],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("a = 99999999999999999999")
	check(err != nil, "%v", n)
}
'''))

bug("P05-long-list", "P05", "a list of more than 16 elements",
    "parsing panics for long lists",
    [("miniquery/tree.go", """	elements := make([]*Node, len(t.Stack)-mark)
""", """	var buf [16]*Node
	elements := buf[:len(t.Stack)-mark]
""")],
    prog([MQ, "strings"], """
func main() {
	_, err := miniquery.Parse("a in [" + strings.Repeat("1,", 17) + "]")
	check(err == nil, "%v", err)
}
"""))

bug("P06-bare-group", "P06", "parentheses around a single name or reference",
    "parentheses around a name are left out, the text parses to another tree",
    [("miniquery/node.go", """			buf.WriteRune('(')
			visit(node.Expression)
			buf.WriteRune(')')
""", """			if t := node.Expression.Type; t == IdentifierNodeType || t == ReferenceNodeType {
				visit(node.Expression)
				return
			}
			buf.WriteRune('(')
			visit(node.Expression)
			buf.WriteRune(')')
""")],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("(a) = 1")
	check(err == nil, "%v", err)
	again, err := miniquery.Parse(miniquery.Build(n))
	check(err == nil && again.String() == n.String(), "%v %v %v", n, again, err)
}
'''))

bug("P07-trims", "P07", "a query that ends with a comment and its line break",
    "the line break that ends the comment is cut off and the rest is commented out",
    [("miniquery/join.go", '''		if len(strings.TrimSpace(v)) == 0 {
''', '''		v = strings.TrimSpace(v)
		if len(v) == 0 {
''')],
    prog([MQ], '''
func main() {
	s := miniquery.Join([]string{"a=1 -- first\\n", "b=2"})
	_, err := miniquery.Parse(s)
	check(err == nil, "%q %v", s, err)
}
'''))

bug("P08-context", "P08", "a value inside a list and a context with a value",
    "elements of a list are visited with another context",
    [("miniquery/visitor.go", '''				for _, n := range node.Array {
					if err = v.Visit(ctx, n); err != nil {
''', '''				for _, n := range node.Array {
					if err = v.Visit(context.Background(), n); err != nil {
''')],
    prog(["context", MQ], '''
type key struct{}

func main() {
	n, err := miniquery.Parse("a in [1]")
	check(err == nil, "%v", err)
	v := &miniquery.Visitor{}
	v.Init()
	list := v.ValueNode
	ok := true
	v.ValueNode = func(ctx context.Context, n *miniquery.Node) error {
		ok = ok && ctx.Value(key{}) == 1
		return list(ctx, n)
	}
	err = v.Visit(context.WithValue(context.Background(), key{}, 1), n)
	check(err == nil && ok, "context lost: %v", err)
}
'''))

bug("P09-null", "P09", "a null literal",
    "null is not reported as a value",
    [("miniquery/node.go", '	return n.ValueType != ""', '	return n.ValueType != "" && n.Value() != nil')],
    prog([MQ], '''
func main() {
	n, err := miniquery.Parse("null")
	check(err == nil && n.IsValue(), "%v %v", n, err)
}
'''))

bug("P10-symbol", "P10", "an error behind a line break",
    "symbols of the second and later lines are counted from two",
    [("miniquery/miniquery.peg.go", "			line, symbol = line+1, 0\n", "			line, symbol = line+1, 1\n")],
    prog([MQ, "strings"], '''
func main() {
	_, err := miniquery.Parse("a = 1 and\\nb = 2 x")
	check(err != nil, "no error")
	check(strings.Contains(err.Error(), "(line 2 symbol 6 - line 2 symbol 7)"), "%v", err)
}
'''))

bug("G01-shared-value", "G01", "a boolean literal that occurs twice in a row",
    "a boolean bind value equal to the previous one is not passed again",
    [("gormq/miniquery.go", '''			vals = append(vals, i)
''', '''			if v, ok := i.(bool); ok && len(vals) > 0 && vals[len(vals)-1] == v {
				return
			}
			vals = append(vals, i)
''')],
    gorm('''
func main() {
	s, vars, err := where("admin = true or level = true")
	check(err == nil && len(vars) == 2, "%s %v %v", s, vars, err)
}
'''))

bug("G02-not-not-like", "G02", "not before a comparison that has a negated operator",
    "the outer not is dropped",
    [("gormq/miniquery.go", '''		buf.WriteString("not ")
		err = visit(node.Expression)
''', '''		if op := node.Expression.Op; op == nil || !strings.HasPrefix(op.Operation, "not ") {
			buf.WriteString("not ")
		}
		err = visit(node.Expression)
''')],
    gorm('''
func main() {
	a, _, err := where("not username not like 'x'")
	check(err == nil, "%v", err)
	b, _, err := where("username not like 'x'")
	check(err == nil && a != b, "%s %v", a, err)
}
'''))

bug("G03-partial-where", "G03", "an unknown name after a valid condition",
    "the part translated before the error is added as a condition",
    [("gormq/miniquery.go", '''		_ = db.AddError(err)
	} else {
		db = db.Where(buf.String(), vals...)
	}
''', '''		_ = db.AddError(err)
	}
	if buf.Len() > 0 {
		db = db.Where(buf.String(), vals...)
	}
''')],
    gorm('''
func main() {
	var n int
	r := find(func(db *gorm.DB) *gorm.DB {
		db = gormq.WireMiniQuery(db, "level = 1 or missing = 2")
		n = len(db.Statement.Clauses)
		return db
	})
	check(r.Error != nil && n == 0, "%v, %d clauses", r.Error, n)
}
'''))

bug("G04-lower-column", "G04", "a field whose Go name in lower case is the column of another field",
    "column names are compared ignoring case before the field names",
    [("gormq/miniquery.go", '''	if _, ok := st.FieldsByDBName[name]; ok {
		return name, true
	}
''', '''	if lower := strings.ToLower(name); st.FieldsByDBName[lower] != nil {
		return lower, true
	}
''')],
    gorm('''
type Item struct {
	ID uint   `gorm:"primarykey"`
	A  string `gorm:"column:b"`
	B  string `gorm:"column:c"`
}

func main() {
	db, err := gorm.Open(sqlite.Open("file::memory:"), &gorm.Config{DryRun: true})
	check(err == nil, "open: %v", err)
	var out []Item
	s := db.Model(&Item{}).Scopes(gormq.ApplyMiniQuery("B = 'a'")).Find(&out).Statement.SQL.String()
	check(strings.Contains(s, "`c`"), "%s", s)
}
'''))

bug("G05-three-parts", "G05", "a name with three parts",
    "the parts behind the second one are ignored",
    [("gormq/miniquery.go", "	if len(node.Names) != 2 {", "	if len(node.Names) < 2 {")],
    gorm('''
func main() {
	s, _, err := where("Profile.age.years = 1")
	check(err != nil, "%s", s)
}
'''))

bug("G06-plain-and", "G06", "a scope of several queries, one of them with a top level or",
    "the queries are joined without parentheses, so an or in one of them widens the others",
    [("gormq/miniquery.go", "	return WireMiniQuery(db, miniquery.Join(q.Query))\n",
      '''	queries := make([]string, 0, len(q.Query))
	for _, v := range q.Query {
		if strings.TrimSpace(v) != "" {
			queries = append(queries, v)
		}
	}
	return WireMiniQuery(db, strings.Join(queries, " and "))
''')],
    gorm('''
func main() {
	r := find(gormq.MiniQuery{Query: []string{"level = 1", "level = 2 or admin = true"}}.Scope)
	s := r.Statement.SQL.String()
	check(r.Error == nil && strings.Contains(s, "(`level` = 2 or "), "%v %s", r.Error, s)
}
'''.replace('"(`level` = 2 or "', '"and (`level` = ? or"')))

bug("S01-inline-null", "S01", "a null literal",
    "null is written into the SQL text instead of being passed as an argument",
    [("entmq/entsql.go", '''			if mb.DisableTypeCasting {
				s.Arg(node.Value())
''', '''			if node.ValueType == miniquery.NullValueType {
				s.WriteString("NULL")
			} else if mb.DisableTypeCasting {
				s.Arg(node.Value())
''')],
    ent('''
func main() {
	s, args, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "a = null"})
	check(err == nil && len(args) == 1, "%s %v %v", s, args, err)
}
'''))

bug("S02-second-operand", "S02", "a call as the left side of between",
    "the upper bound is compared with the argument of the call",
    [("entmq/entsql.go", '''		if err == nil {
			err = visit(node.Left)
		}
		if err == nil {
			s.WriteOp(ro)
''', '''		if err == nil {
			left := node.Left
			if left.Type == miniquery.FunctionExpressionType {
				left = left.Params[0]
			}
			err = visit(left)
		}
		if err == nil {
			s.WriteOp(ro)
''')],
    ent('''
func main() {
	s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "date(a) between '1' and '2'"})
	check(err == nil && s == `DATE("a") >= $1 AND DATE("a") <= $2`, "%s %v", s, err)
}
'''))

bug("S03-right-error", "S03", "a logic expression whose right side can not be translated",
    "an error of the right side of a logic expression is ignored when its own operator was written",
    [("entmq/entsql.go", '''		if !found {
			return errors.Errorf("unexpected op %q", node.Op.Operation)
		}
		if err == nil {
''', '''		if !found {
			return errors.Errorf("unexpected op %q", node.Op.Operation)
		}
		if err == nil && node.Type == miniquery.LogicExpressionType && node.Right.Type == miniquery.ReferenceNodeType {
			s.Ident(node.Right.Names[len(node.Right.Names)-1])
			return nil
		}
		if err == nil {
''')],
    ent('''
func main() {
	s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "a = 1 and b.active"})
	check(err != nil, "%s", s)
}
'''))

bug("S04-extra-args", "S04", "has_edge with three arguments",
    "the arguments behind the filter are ignored",
    [("entmq/entsql.go", '''			case 2:
				if !params[1].IsExpression() {
''', '''			default:
				if !params[1].IsExpression() {
'''),
     ("entmq/entsql.go", '''			default:
				err = errors.New("关联参数错误")
			}
			if err == nil {
''', '''			}
			if err == nil {
''')],
    ent('''
func main() {
	s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "has_edge(pets, age > 3, age < 5)", Node: graph(false)})
	check(err != nil, "%s", s)
}
'''))

bug("S04-name-filter", "S04", "a bare name as the filter of has_edge",
    "a name is taken as a condition",
    [("entmq/entsql.go", "				if !params[1].IsExpression() {\n", "				if params[1].IsValue() {\n")],
    ent('''
func main() {
	s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "has_edge(pets, age)", Node: graph(false)})
	check(err != nil, "%s", s)
}
'''))

bug("S05-zero", "S05", "the integer zero on Postgres",
    "zero is not cast",
    [("entmq/entsql_util.go", '''		switch f.v.(type) {
		case int:
			typ = "int"
''', '''		switch v := f.v.(type) {
		case int:
			if v == 0 {
				return placeholder
			}
			typ = "int"
''')],
    ent('''
func main() {
	s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "a = 0"})
	check(err == nil && s == `"a" = $1::int`, "%s %v", s, err)
}
'''))

bug("S06-no-dialect", "S06", "a target builder without a dialect",
    "a target builder without a dialect is ignored",
    [("entmq/entsql.go", '''	s := mb.SQLBuilder
	if s == nil {
''', '''	s := mb.SQLBuilder
	if s == nil || s.Dialect() == "" {
''')],
    ent('''
func main() {
	b := &sql.Builder{}
	mb := &entmq.MiniQLToEntSQLBuilder{QueryString: "a is null", SQLBuilder: b}
	s, _ := mb.Query()
	check(s == "" && b.String() != "", "%q %q", s, b.String())
}
'''))

bug("Q01-flat-and", "Q01", "an and whose right side is a parenthesised or",
    "the sides of the inner expression are regrouped",
    [("entmq/entql.go", '''			mb.push(&entql.BinaryExpr{
				Op: op,
				X:  left,
				Y:  right,
			})
''', '''			if b, ok := right.(*entql.BinaryExpr); ok && op == entql.OpAnd && b.Op == entql.OpOr {
				left, right, op = &entql.BinaryExpr{Op: op, X: left, Y: b.X}, b.Y, b.Op
			}
			mb.push(&entql.BinaryExpr{
				Op: op,
				X:  left,
				Y:  right,
			})
''')],
    prog([EQ, "entgo.io/ent/entql"], '''
func main() {
	p, err := entmq.BuildEntQL("a = 1 and (b = 1 or c = 1)")
	check(err == nil, "%v", err)
	b, ok := p.(*entql.BinaryExpr)
	check(ok && b.Op == entql.OpAnd, "%v", p)
}
'''))

bug("Q02-like-as-name", "Q02", "like below a logic operator",
    "an operator that is not supported leaves its left side as the condition",
    [("entmq/entql.go", '''				return errors.Errorf("unexpected op %q", node.Op.Operation)
''', '''				mb.push(left)
				return nil
''')],
    prog([EQ], '''
func main() {
	p, err := entmq.BuildEntQL("a = 1 and b like 'x'")
	check(err != nil, "%v", p)
}
'''))

bug("Q03-skips-repeated", "Q03", "the same query twice in a row",
    "a query that repeats the previous one is not added",
    [("entmq/entql.go", '''	for _, v := range queries {
		mb := MiniQLToEntQLBuilder{Query: v}
''', '''	for i, v := range queries {
		if i > 0 && v == queries[i-1] {
			continue
		}
		mb := MiniQLToEntQLBuilder{Query: v}
''')],
    prog(["entgo.io/ent/entql", EQ], '''
type target []entql.P

func (t *target) Where(p entql.P) { *t = append(*t, p) }

func main() {
	t := &target{}
	err := entmq.ApplyEntQL(t, []string{"a=1", "a=1", "b=1"})
	check(err == nil && len(*t) == 3, "%v %v", *t, err)
}
'''))

bug("X01-no-argument", "X01", "date without an argument in gorm",
    "the first argument is looked at without checking that there is one",
    [("gormq/miniquery.go", '''		buf.WriteString(node.Name)
		buf.WriteString("(")
''', '''		if arg := node.Params[0]; arg.IsValue() && arg.ValueType == miniquery.ArrayValueType {
			return fmt.Errorf("invalid argument: %q", arg)
		}
		buf.WriteString(node.Name)
		buf.WriteString("(")
''')],
    gorm('''
func main() {
	where("date() = '2020-01-01'")
}
'''))

bug("X02-last-tree", "X02", "the same query parsed twice and one of the trees changed",
    "the last tree is kept in a package variable and handed out again",
    [("miniquery/parse.go", "package miniquery\n\nfunc Parse(s string) (*Node, error) {\n", '''package miniquery

var last struct {
	text string
	node *Node
}

func Parse(s string) (*Node, error) {
	if last.node != nil && last.text == s {
		return last.node, nil
	}
'''),
     ("miniquery/parse.go", "	return p.Pop(), nil\n", "	last.text, last.node = s, p.Pop()\n	return last.node, nil\n")],
    prog([MQ], '''
func main() {
	a, err := miniquery.Parse("a = 1")
	check(err == nil, "%v", err)
	a.Left.Name = "changed"
	b, err := miniquery.Parse("a = 1")
	check(err == nil && b.Left.Name == "a", "%v", b)
}
'''))

bug("X02-renames-node", "X02", "a tree that is used again after has been translated",
    "the name in the tree is replaced by the column name",
    [("entmq/entsql.go", "		s.Ident(xstrings.ToSnakeCase(node.Name))\n",
      "		node.Name = xstrings.ToSnakeCase(node.Name)\n		s.Ident(node.Name)\n")],
    ent('''
func main() {
	mb := &entmq.MiniQLToEntSQLBuilder{QueryString: "has_edge(pets, bornAt = 1)", Node: graph(false)}
	_, _, err := build(mb)
	check(err == nil, "%v", err)
	ast := reflect.ValueOf(mb).Elem().FieldByName("ast").Elem()
	name := ast.FieldByName("Params").Index(1).Elem().FieldByName("Left").Elem().FieldByName("Name").String()
	check(name == "bornAt", "%s", name)
}
''', ["reflect"]))

bug("X03-join-set", "X03", "more than one query to join",
    "repeated queries are removed with a set whose iteration order is random",
    [("miniquery/join.go", '''	sb := strings.Builder{}
	for _, v := range s {
''', '''	set := make(map[string]struct{}, len(s))
	for _, v := range s {
		set[v] = struct{}{}
	}
	sb := strings.Builder{}
	for v := range set {
''')],
    prog([MQ], '''
func main() {
	list := []string{"a=1", "b=2", "c=3", "d=4", "e=5"}
	for i := 0; i < 100; i++ {
		check(miniquery.Join(list) == miniquery.Join(list), "not the same")
	}
}
'''))

bug("P13-any-callee", "P13", "a function call built from something that is not a name",
    "a call is built without name and without error",
    [("miniquery/tree.go", "	if n.Type == IdentifierNodeType && a.Type == ValueNodeType && a.ValueType == ArrayValueType {", "	if a.Type == ValueNodeType && a.ValueType == ArrayValueType {")],
    prog([MQ], """
func main() {
	t := &miniquery.Tree{}
	t.AddInteger("1")
	t.AddMark()
	t.PopArray()
	t.PopFunction()
	check(len(t.Errors) == 1 && t.Pop() == nil, "%v %v", t.Errors, t.Stack)
}
"""))

bug("P13-float", "P13", "a float with more than 24 significant bits",
    "floats are read with 32 bits",
    [("miniquery/tree.go", "	v, err := strconv.ParseFloat(s, 64)", "	v, err := strconv.ParseFloat(s, 32)")],
    prog([MQ], """
func main() {
	t := &miniquery.Tree{}
	t.AddFloat("0.1")
	check(len(t.Errors) == 0 && t.Pop().Value() == 0.1, "%v", t.Errors)
}
"""))

bug("P13-one-operand", "P13", "a function call built from a stack with one node",
    "panics instead of recording an error",
    [("miniquery/tree.go", "	if a == nil || n == nil {", "	if a == nil {")],
    prog([MQ], """
func main() {
	t := &miniquery.Tree{}
	t.AddMark()
	t.PopArray()
	t.PopFunction()
	check(len(t.Errors) == 1 && len(t.Stack) == 0, "%v", t.Errors)
}
"""))

bug("P13-error-cap", "P13", "more than 10 literals that can not be represented",
    "the errors after the tenth are not recorded",
    [("miniquery/tree.go", "	if err != nil {\n		t.Errors = append(t.Errors, err)", "	if err != nil && len(t.Errors) < 10 {\n		t.Errors = append(t.Errors, err)")],
    prog([MQ], """
func main() {
	t := &miniquery.Tree{}
	for i := 0; i < 20; i++ {
		t.AddInteger("99999999999999999999")
	}
	check(len(t.Errors) == 20, "%d errors", len(t.Errors))
}
"""))

bug("P11-furthest", "P11", "a text that is rejected after a longer one was parsed with the same parser",
    "the error reports a part of the earlier text",
    [("miniquery/miniquery.peg.go", "		max = token32{}\n		position, tokenIndex = 0, 0\n", "		position, tokenIndex = 0, 0\n")],
    prog([MQ, "strings"], """
func main() {
	p := &miniquery.MiniQueryPeg{Tree: &miniquery.Tree{}, Buffer: "some_name = 1 and other > 2"}
	check(p.Init() == nil && p.Parse() == nil, "first text")
	p.Buffer, p.Tree = "x = y z", &miniquery.Tree{}
	p.Reset()
	err := p.Parse()
	check(err != nil, "accepted")
	_, want := miniquery.Parse("x = y z")
	defer func() { check(recover() == nil, "the error can not be printed") }()
	check(strings.TrimSpace(err.Error()) == strings.TrimSpace(want.Error()), "%s", err)
}
"""))

bug("P11-shorter-text", "P11", "a second text that is shorter than the first one",
    "a shorter text is laid over the text parsed before, whose end is still there",
    [("miniquery/miniquery.peg.go", "		buffer = p.buffer\n", """		if len(p.buffer) < len(buffer) {
			copy(buffer, p.buffer[:len(p.buffer)-1])
		} else {
			buffer = p.buffer
		}
""")],
    prog([MQ], """
func main() {
	p := &miniquery.MiniQueryPeg{Tree: &miniquery.Tree{}, Buffer: "a = 1 and b = 2"}
	check(p.Init() == nil && p.Parse() == nil, "first text")
	p.Buffer, p.Tree = "c > 3", &miniquery.Tree{}
	p.Reset()
	err := p.Parse()
	check(err == nil, "%v", err)
	p.Execute()
	n, want := p.Pop(), "c > 3"
	check(miniquery.Build(n) == want, "%s", miniquery.Build(n))
}
"""))

bug("P11-second-option", "P11", "several options of which one that is not the last fails",
    "only the error of the last option is reported",
    [("miniquery/miniquery.peg.go", """	for _, option := range options {
		err := option(p)
		if err != nil {
			return err
		}
	}
""", """	var err error
	for _, option := range options {
		err = option(p)
	}
	if err != nil {
		return err
	}
""")],
    prog([MQ, "errors"], """
func main() {
	bad := func(*miniquery.MiniQueryPeg) error { return errors.New("bad") }
	p := &miniquery.MiniQueryPeg{Tree: &miniquery.Tree{}}
	err := p.Init(bad, miniquery.Pretty(true))
	check(err != nil && !p.Pretty, "%v %v", err, p.Pretty)
}
"""))

bug("P12-prefix", "P12", "a part that starts where the part around it starts",
    "a part at the start of another one is not shown below it",
    [("miniquery/miniquery.peg.go", "stack.node.begin >= token.begin && stack.node.end <= token.end {",
      "stack.node.end <= token.end && (stack.node.begin > token.begin || stack.node.end == token.end) {")],
    prog([MQ, "strings"], """
func main() {
	p := &miniquery.MiniQueryPeg{Tree: &miniquery.Tree{}, Buffer: "a = 1"}
	check(p.Init() == nil && p.Parse() == nil, "parse")
	got := p.SprintSyntaxTree()
	check(strings.Count(got, "Identifier") > 0, "%s", got)
}
"""))

bug("P12-deep", "P12", "parts nested deeper than 16 levels",
    "deep parts are all shown at the same level",
    [("miniquery/miniquery.peg.go", "				print(node.up, depth+1)\n", "				print(node.up, min(depth+1, 16))\n")],
    prog([MQ, "strings"], """
func main() {
	p := &miniquery.MiniQueryPeg{Tree: &miniquery.Tree{}, Buffer: strings.Repeat("(", 6) + "a" + strings.Repeat(")", 6)}
	check(p.Init() == nil && p.Parse() == nil, "parse")
	last, levels := -1, 0
	for _, l := range strings.Split(p.SprintSyntaxTree(), "\\n") {
		n := len(l) - len(strings.TrimLeft(l, " "))
		if n == last && strings.Contains(l, "Expression") {
			levels++
		}
		last = n
	}
	check(levels == 0, "%d nested lines at the level of the line above\\n%s", levels, p.SprintSyntaxTree())
}
"""))

bug("P10-quote-cut", "P10", "a furthest recognised part of more than 40 characters",
    "the quoted part ends after 40 characters",
    [("miniquery/miniquery.peg.go", "			strconv.Quote(string(e.p.buffer[begin:end])))", "			strconv.Quote(string(e.p.buffer[begin:min(end, begin+40)])))")],
    prog([MQ, "strings"], """
func main() {
	name := strings.Repeat("ab", 30)
	_, err := miniquery.Parse(name + "!")
	check(err != nil && strings.Contains(err.Error(), name), "%v", err)
}
"""))

bug("S04-changed-schema", "S04", "an inverse many-to-many edge used in two queries",
    "the relation kind of the edge is changed in the schema of the caller",
    [("entmq/entsql.go", "			var edgeErr error\n", """			if edge.Spec.Rel == sqlgraph.M2M && edge.Spec.Inverse {
				edge.Spec.Rel = sqlgraph.O2M
			}
			var edgeErr error
""")],
    ent("""
func main() {
	node := graph(true)
	s, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "has_edge(pets)", Node: node})
	check(err == nil, "%v", err)
	check(strings.Contains(s, "user_pets") && node.Edges["pets"].Spec.Rel == sqlgraph.M2M, "%s %v", s, node.Edges["pets"].Spec.Rel)
}
""", ["strings"]))

bug("S06-sets-dialect", "S06", "a target builder without a dialect and an own builder with one",
    "the dialect of the target builder is changed",
    [("entmq/entsql.go", """	s := mb.SQLBuilder
	if s == nil {
		s = &mb.Builder
	}
""", """	s := mb.SQLBuilder
	if s == nil {
		s = &mb.Builder
	} else if s.Dialect() == "" {
		s.SetDialect(mb.Dialect())
	}
""")],
    ent("""
func main() {
	b := &sql.Builder{}
	_, _, err := build(&entmq.MiniQLToEntSQLBuilder{QueryString: "a is null", SQLBuilder: b})
	check(err == nil && b.Dialect() == "", "%q %v", b.Dialect(), err)
}
"""))

bug("Q01-not-null", "Q01", "a comparison of a field with null by !=",
    "a comparison with null tests for equality whatever its operator",
    [("entmq/entql.go", """			mb.push(&entql.BinaryExpr{
				Op: op,
				X:  left,
				Y:  right,
			})
""", """			if v, ok := right.(*entql.Value); ok && v.V == nil && op == entql.OpNEQ {
				op = entql.OpEQ
			}
			mb.push(&entql.BinaryExpr{
				Op: op,
				X:  left,
				Y:  right,
			})
""")],
    prog([EQ], """
func main() {
	a, err := entmq.BuildEntQL("a = null")
	check(err == nil, "%v", err)
	b, err := entmq.BuildEntQL("a != null")
	check(err == nil && a.String() != b.String(), "%v %v", b, err)
}
"""))

bug("X02-sorted-fields", "X02", "a name that is found by its Go name only",
    "the field list of the cached model is sorted in place",
    [("gormq/miniquery.go", "	for _, f := range st.Fields {\n", "	sort.Slice(st.Fields, func(i, j int) bool { return st.Fields[i].Name < st.Fields[j].Name })\n	for _, f := range st.Fields {\n"),
     ("gormq/miniquery.go", "	\"fmt\"\n", "	\"fmt\"\n	\"sort\"\n")],
    gorm("""
func main() {
	names := func(r *gorm.DB) string {
		var s []string
		for _, f := range r.Statement.Schema.Fields {
			s = append(s, f.Name)
		}
		return strings.Join(s, " ")
	}
	r := find(gormq.ApplyMiniQuery("USERNAME = 'x'"))
	check(r.Error == nil, "%v", r.Error)
	check(names(r) == "ID Username FullName Admin Level ProfileID Profile", "%s", names(r))
}
"""))

bug("P04-clipped", "P04", "an integer literal that does not fit",
    "an integer that is too large silently becomes the largest one",
    [("miniquery/tree.go", """	i, err := strconv.Atoi(s)
	t.AddError(err)
""", """	i, err := strconv.Atoi(s)
	if !errors.Is(err, strconv.ErrRange) {
		t.AddError(err)
	}
"""), ("miniquery/tree.go", "	\"fmt\"\n", "	\"errors\"\n	\"fmt\"\n")],
    prog([MQ], """
func main() {
	n, err := miniquery.Parse("a = 9223372036854775807")
	check(err == nil && n.Right.Int == 9223372036854775807, "%v", err)
	n, err = miniquery.Parse("a = 9223372036854775808")
	check(err != nil && n == nil, "%v", n)
}
"""))

bug("G01-lower-function", "G01", "a query that calls a function named like date in another letter case",
    "the name of the function is written into the SQL as it is spelled in the query",
    [("gormq/miniquery.go", "	switch node.Name {\n	case \"date\":\n", "	switch strings.ToLower(node.Name) {\n	case \"date\":\n")],
    gorm("""
func main() {
	r := find(gormq.ApplyMiniQuery("date(username) = 'x'"))
	check(r.Error == nil, "%v", r.Error)
	r = find(gormq.ApplyMiniQuery("dAtE(username) = 'x'"))
	check(r.Error != nil && !strings.Contains(r.Statement.SQL.String(), "dAtE"), "%s", r.Statement.SQL.String())
}
"""))

bug("G05-second-relation", "G05", "fields of two different relations in a query",
    "only the first relation used in a query is joined",
    [("gormq/miniquery.go", """			if _, ok := joined[s]; !ok {
				db = db.Joins(s)
			}
""", """			if len(joined) == 0 {
				db = db.Joins(s)
			}
""")],
    gorm("""
type Account struct {
	ID        uint `gorm:"primarykey"`
	ProfileID uint
	Profile   *UserProfile
	OwnerID   uint
	Owner     *User
}

func main() {
	joins := 0
	find(func(db *gorm.DB) *gorm.DB {
		db = gormq.WireMiniQuery(db.Session(&gorm.Session{NewDB: true}).Model(&Account{}), "Profile.age > 1 and Owner.level = 2")
		joins = len(db.Statement.Joins)
		return db
	})
	check(joins == 2, "%d joins", joins)
}
"""))

bug("Q04-kept-tree", "Q04", "a builder whose query is changed after a build",
    "the tree of the first query is used for all later ones",
    [("entmq/entql.go", "	stack []entql.Expr\n", "	stack []entql.Expr\n	node  *miniquery.Node\n"),
     ("entmq/entql.go", """	node, err := miniquery.Parse(mb.Query)
	if err != nil {
		return nil, err
	}
	err = mb.visit(node)
""", """	if mb.node == nil {
		if mb.node, err = miniquery.Parse(mb.Query); err != nil {
			return nil, err
		}
	}
	err = mb.visit(mb.node)
""")],
    prog([EQ], """
func main() {
	mb := entmq.MiniQLToEntQLBuilder{Query: "a = 1"}
	p, err := mb.Build()
	check(err == nil && p != nil, "%v", err)
	mb.Query = "b = 2"
	q, err := mb.Build()
	check(err == nil && q.String() != p.String(), "%v %v", q, err)
}
"""))

bug("Q04-oldest", "Q04", "a build after one that failed behind its first operand",
    "the oldest operand is taken as the result",
    [("entmq/entql.go", "		if p, ok = mb.pop().(entql.P); !ok {\n			return nil, errors", "		if p, ok = mb.stack[0].(entql.P); !ok {\n			return nil, errors")],
    prog([EQ], """
func main() {
	mb := entmq.MiniQLToEntQLBuilder{Query: "a = f()"}
	_, err := mb.Build()
	check(err != nil, "no error")
	mb.Query = "b = 2"
	q, err := mb.Build()
	w, _ := entmq.BuildEntQL("b = 2")
	check(err == nil && q.String() == w.String(), "%v %v", q, err)
}
"""))

bug("Q01-deep-operands", "Q01", "a comparison behind more than six pending operands",
    "the operands of the comparison are exchanged",
    [("entmq/entql.go", """			right := mb.pop()
			left := mb.pop()
""", """			right := mb.pop()
			left := mb.pop()
			if len(mb.stack) > 6 {
				left, right = right, left
			}
""")],
    prog([EQ], """
func main() {
	s := "z = 9"
	for i := 0; i < 8; i++ {
		p, err := entmq.BuildEntQL(s)
		check(err == nil, "%v", err)
		check(strings.Contains(p.String(), "z == 9"), "%v", p)
		s = "a = 1 or (" + s + ")"
	}
}
""").replace('import (', 'import (\n\t"strings"', 1))

bug("P08-deep-not", "P08", "more than five nots around an expression",
    "the expression is not visited",
    [("miniquery/visitor.go", """	if v.NotExpression == nil {
		v.NotExpression = func(ctx context.Context, node *Node) error {
			return v.Visit(ctx, node.Expression)
""", """	if v.NotExpression == nil {
		depth := 0
		v.NotExpression = func(ctx context.Context, node *Node) error {
			depth++
			defer func() { depth-- }()
			if depth > 5 {
				return nil
			}
			return v.Visit(ctx, node.Expression)
""")],
    prog([MQ], """
func main() {
	n, err := miniquery.Parse(strings.Repeat("not (", 7) + "a = 1" + strings.Repeat(")", 7))
	check(err == nil, "%v", err)
	seen := 0
	v := miniquery.Visitor{IdentifierNode: func(ctx context.Context, node *miniquery.Node) error {
		seen++
		return nil
	}}
	v.Init()
	err = v.Visit(context.Background(), n)
	check(err == nil && seen == 1, "%v, %d names", err, seen)
}
""").replace("import (", "import (\n\t\"context\"\n\t\"strings\"", 1))

if __name__ == "__main__":
    run()
