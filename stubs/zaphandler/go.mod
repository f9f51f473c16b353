module go.mrchanchal.com/zaphandler

go 1.21
