module github.com/go-ini/ini

go 1.27.3

require github.com/stretchr/testify v1.12.1

require go.yaml.in/yaml/v3 v3.0.5 // indirect
