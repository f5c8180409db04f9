module rewriter

go 1.23
