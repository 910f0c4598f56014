module verif/harness

go 1.25

require (
	entgo.io/ent v0.14.5
	github.com/davecgh/go-spew v1.1.1
	github.com/glebarez/sqlite v1.11.0
	github.com/huandu/xstrings v1.5.0
	github.com/pkg/errors v0.9.1
	github.com/stretchr/testify v1.8.4
	gorm.io/gorm v1.31.1
)

require (
	github.com/dustin/go-humanize v1.0.1 // indirect
	github.com/glebarez/go-sqlite v1.21.2 // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/jinzhu/inflection v1.0.0 // indirect
	github.com/jinzhu/now v1.1.5 // indirect
	github.com/kr/text v0.2.0 // indirect
	github.com/mattn/go-isatty v0.0.17 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/remyoudompheng/bigfft v0.0.0-20230129092748-24d4a6f8daec // indirect
	golang.org/x/sys v0.38.0 // indirect
	golang.org/x/text v0.31.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
	modernc.org/libc v1.22.5 // indirect
	modernc.org/mathutil v1.5.0 // indirect
	modernc.org/memory v1.5.0 // indirect
	modernc.org/sqlite v1.23.1 // indirect
)

require (
	github.com/wenerme/go-miniquery v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/wenerme/go-miniquery => /repo
