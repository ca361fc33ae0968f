module go.uber.org/mock

go 1.22
