package sqlx

// Names are names of columns and tables: words of SQL that need quotes, other cases, letters and digits.
var Names = []string{"plain", "order", "key", "desc", "group", "when", "end", "index", "values", "rank", "Name", "userName", "c_1", "_x", "名称", "interval", "status", "from", "a b", "a-b", "1a", "a(b", "a'b", "a\"b", "a@b", "a?b", "A", "@b", "*", "b,c", "null"}
