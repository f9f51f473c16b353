module go.seankhliao.com/svcrunner/v3

go 1.21
