module verif

go 1.27

require (
	github.com/Breeze0806/go v0.0.0-20210513031655-61a934305111
	github.com/Breeze0806/gobinlog v0.0.0
	github.com/Breeze0806/mysql v1.4.2
)

replace github.com/Breeze0806/go => ./stub

replace github.com/Breeze0806/gobinlog => /repo
