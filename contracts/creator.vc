package infra

func NewCreator(name, handlerFn, loggerFn, summary, links) (c)
	prop C23
	ensures name: c.name == name
	ensures summary: c.summary == summary
	ensures links: c.links == links
	ensures handler: c.handlerFn == handlerFn
	ensures logger: c.loggerFn == loggerFn
	ensures valid: name != "" && (handlerFn != nil || loggerFn != nil)

func (*Creator).NewLogger(c, w, options) (r)
	prop C23
	requires c != nil && (c.handlerFn != nil || c.loggerFn != nil)
	ensures logger: c.loggerFn != nil ==> r == c.loggerFn(w, options)
	ensures handler: c.loggerFn == nil ==> r == slog.New(c.handlerFn(w, options))
	safe

func (*Creator).NewHandler(c, w, options) (r)
	prop C23
	requires c != nil
	ensures made: c.handlerFn != nil ==> r == c.handlerFn(w, options)
	ensures none: c.handlerFn == nil ==> r == nil
	safe

func (*Creator).CanMakeHandler(c) (r)
	prop C23
	requires c != nil
	ensures r <==> c.handlerFn != nil
	safe

func (*Creator).Name(c) (r)
	prop C23
	requires c != nil
	ensures r == c.name
	safe

func (*Creator).Summary(c) (r)
	prop C23
	requires c != nil
	ensures r == c.summary
	safe

func (*Creator).HasSummary(c) (r)
	prop C23
	requires c != nil
	ensures r <==> c.summary != ""
	safe

func (*Creator).Links(c) (r)
	prop C23
	requires c != nil
	ensures r == c.links
	safe

func (*Creator).HasLinks(c) (r)
	prop C23
	requires c != nil
	ensures r <==> len(c.links) > 0
	safe
