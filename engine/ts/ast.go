package ts

// Type of a value.
type Type struct {
	K     string // int, bool, string, void, multi
	Slice bool
}

func (t Type) String() string {
	if t.Slice {
		return "[]" + t.K
	}
	return t.K
}

func (t Type) isInt() bool  { return t == TInt }
func (t Type) isBool() bool { return t == TBool }
func (t Type) isStr() bool  { return t == TStr }
func (t Type) Elem() Type   { return Type{K: t.K} }

var (
	TInt   = Type{K: "int"}
	TBool  = Type{K: "bool"}
	TStr   = Type{K: "string"}
	TVoid  = Type{K: "void"}
	TMulti = Type{K: "multi"}
)

// Var is one variable.
type Var struct {
	Name   string
	T      Type
	Global bool
	ID     int
}

// Func is a function definition.
type Func struct {
	Name   string
	Params []*Var
	Rets   []Type
	Body   []*Stmt
	Mod    *Module
}

// AppCall is one member of a command chain.
type AppCall struct {
	Name string
	Args []*Expr
}

// Expr is a typed expression.
type Expr struct {
	K     string // int bool str var neg bin cmp and or not group index substr list len input copy itoa exists read call app
	T     Type
	Multi []Type
	Op    string
	S     string
	B     bool
	Args  []*Expr
	Lo    *Expr
	Hi    *Expr
	V     *Var
	F     *Func
	Apps  []*AppCall
}

// Branch of an if or switch.
type Branch struct {
	Cond *Expr
	Body []*Stmt
}

// Stmt is a statement.
type Stmt struct {
	K        string // def assign opassign index if switch for range break continue return print panic write expr
	Vars     []*Var
	Vals     []*Expr
	Op       string
	Idx      *Expr
	Branches []Branch
	Else     []*Stmt
	HasElse  bool
	Tag      *Expr
	Init     *Stmt
	Cond     *Expr
	Post     *Stmt
	Body     []*Stmt
}

// Module is one file.
type Module struct {
	Path    string
	Stmts   []*Stmt
	Funcs   map[string]*Func
	Imports map[string]*Module
	Order   []*Module // imported modules in source order
}

// Prog is a checked program.
type Prog struct {
	Main  *Module
	Mods  map[string]*Module
	NVars int
	// Unsure lists constructs whose acceptance the properties leave open.
	Unsure []string
	// Uses records features.
	Uses map[string]bool
}

// Reject is the reason a program is ill-typed or ill-scoped.
type Reject struct {
	Msg    string
	Syntax bool // a form outside the grammar; acceptance is not asserted
	Lex    bool
}

func (r *Reject) Error() string { return r.Msg }
