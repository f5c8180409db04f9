package sqlx

import (
	"strings"

	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"
)

type dialector struct{}

func (dialector) Name() string { return "mysql" }
func (dialector) Initialize(db *gorm.DB) error {
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{
		CreateClauses: []string{"INSERT", "VALUES", "ON CONFLICT"},
		UpdateClauses: []string{"UPDATE", "SET", "WHERE", "ORDER BY", "LIMIT"},
		DeleteClauses: []string{"DELETE", "FROM", "WHERE", "ORDER BY", "LIMIT"},
	})
	db.ConnPool = DB()
	return nil
}
func (dialector) Migrator(*gorm.DB) gorm.Migrator { return nil }
func (dialector) DataTypeOf(*schema.Field) string { return "" }
func (dialector) DefaultValueOf(*schema.Field) clause.Expression {
	return clause.Expr{SQL: "NULL"}
}
func (dialector) BindVarTo(w clause.Writer, s *gorm.Statement, v interface{}) { w.WriteByte('?') }

// QuoteTo quotes each part of a name; a part that is quoted already stays as it is, as with the MySQL driver.
func (dialector) QuoteTo(w clause.Writer, str string) {
	for i, s := range strings.Split(str, ".") {
		if i > 0 {
			w.WriteByte('.')
		}
		if n := len(s); n > 2 && s[0] == '`' && s[n-1] == '`' && !strings.Contains(s[1:n-1], "`") {
			s = s[1 : n-1]
		}
		w.WriteByte('`')
		w.WriteString(strings.ReplaceAll(s, "`", "``"))
		w.WriteByte('`')
	}
}
func (dialector) Explain(sql string, vars ...interface{}) string {
	return logger.ExplainSQL(sql, nil, `'`, vars...)
}

// Gorm opens a gorm handle on DB.
func Gorm(c *gorm.Config) *gorm.DB {
	if c == nil {
		c = &gorm.Config{}
	}
	c.Logger = logger.Discard
	c.DisableAutomaticPing = true
	db, err := gorm.Open(dialector{}, c)
	if err != nil {
		panic(err)
	}
	return db
}
