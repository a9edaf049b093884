"""Request pipeline: what must have happened before an operation is planned or executed."""
import re
from registry import prop
from framework import Anchor, nonempty, empty, group
from absint import Assume, Sink, Trans, BOT, TOP, TRUE, FALSE, NONE, Ok, Err, Some, variant, OVER, EQUAL, LIMIT, PART

HTTP = "pipeline::graphql_request_handler"
WS = "pipeline::websocket_server::handle_text_frame"
EXEC = r"(SubgraphExecutorMap::(execute|subscribe)|plan::execute_query_plan(_with_data)?|executor::execution::plan::execute_query_plan\w*)$"


def exec_sinks():
    return [Sink("execute", EXEC)]


ERR = Err(TOP)


@prop("P01", "Typestate over every path of the HTTP and WebSocket handlers: parsing puts the request in state 'parsed', "
             "validation moves it to 'validated', and execution may only start in 'validated'. A second rule shows that the validation "
             "stage itself cannot answer 'proceed' when the rule set reported errors, and that both handlers stop when it does not answer 'proceed'.")
def p01(c):
    parse, validate = r"pipeline::parser::parse_operation_with_cache$", r"pipeline::validation::validate_operation_with_cache$"
    for name, entry in (("http", HTTP), ("ws", WS)):
        c.unreachable("typestate-" + name, "execution starts only after the operation most recently parsed for this request was validated",
                      entry, [], [Sink("execute", r"pipeline::execute_planned_request$", bad=["0", "P"])],
                      trans=[Trans(parse, {"*": "P"}), Trans(validate, {"P": "V"})])
        c.unreachable("reject-" + name, "an operation whose validation fails is never planned or executed", entry,
                      [Assume("ret", validate, Err())],
                      [Sink("plan", r"plan_operation_with_cache$")] + exec_sinks())
        c.unreachable("early-" + name, "an early validation response ends the request", entry,
                      [Assume("ret", validate, Ok(Some()))], [Sink("plan", r"plan_operation_with_cache$")] + exec_sinks())
        c.unreachable("must-" + name, "there is no path to planning or execution that bypasses validation", entry,
                      [Assume("ret", validate, BOT)], [Sink("plan", r"plan_operation_with_cache$")] + exec_sinks())
    okNone = lambda av: may(av, ("Ok", "None"))
    c.unreachable("nonempty-errors", "validation that produced errors never answers 'proceed'", "validate_operation_with_cache",
nonempty("ValidationError"), [], ret_bad=okNone)


def may(av, shape):
    """May the abstract value be e.g. Ok(None)?"""
    from absint import strip
    av = strip(av)
    if av is BOT:
        return False
    if not shape:
        return True
    if av[0] != "V":
        return True
    idx = {"Ok": 0, "Err": 1, "None": 0, "Some": 1}[shape[0]]
    for i, fs in av[2]:
        if i == idx:
            if len(shape) == 1:
                return True
            return may(dict(fs).get(0, TOP), shape[1:])
    return False


BODY_READ = r"http_utils::body::read_body_stream$"
PREP = r"OperationPreparation::\w*prepare_http$"


def work_sinks():
    return [Sink("prepare", r"execution_request::OperationPreparation\S*::prepare_http$", stop=True),
            Sink("plan", r"plan_operation_with_cache$", stop=True), Sink("execute", EXEC, stop=True)]


@prop("P03", "Branch feasibility under the rejecting assumption: when the CSRF check, the header-size limit or the body-size limit says no, "
             "no call that prepares, plans or executes an operation stays reachable; the checks themselves are analysed under 'required header "
             "missing, content type simple or absent' and 'measured size exceeds the configured limit'.")
def p03(c):
    csrf = r"csrf_prevention::perform_csrf_prevention$"
    body = [Sink("read-body", BODY_READ, stop=True)]
    c.unreachable("csrf-reject", "a request that fails the CSRF check is not read, prepared, planned or executed", HTTP,
                  [Assume("ret", csrf, ERR)], body + work_sinks())
    c.unreachable("csrf-must", "no request is read or prepared without the CSRF check", HTTP, [Assume("ret", csrf, BOT)], body + work_sinks())
    base = [Assume("field", "CSRFPreventionConfig.enabled", TRUE)] + nonempty("CsrfRequiredHeader|RequiredHeader|HeaderName")
    no_header = group("missing header", Assume("ret", r"HeaderMap(::<.*>)?::contains_key$", FALSE),
                      Assume("ret", r"HeaderMap(::<.*>)?::get$", NONE))
    okay = lambda av: may(av, ("Ok",))
    f = c.fn("csrf_prevention::perform_csrf_prevention")
    c.unreachable("csrf-no-content-type", "with CSRF prevention on, a request without a content type and without any required header is refused",
                  f, base + no_header, [], ret_bad=okay)
    simple = Assume("ret", r"str>?::(starts_with|contains|eq_ignore_ascii_case)$|PartialEq.*::eq$", TRUE)
    c.unreachable("csrf-simple-content-type", "with CSRF prevention on, a request with a simple content type and without any required header is refused",
                  f, base + [Assume("ret", r"HeaderMap(::<.*>)?::contains_key$", FALSE), simple], [], ret_bad=okay)
    c.unreachable("header-limit", "a request whose headers exceed the configured size is never read, prepared, planned or executed", HTTP,
                  [Assume("field", "LimitsConfig.max_request_header_size", OVER)], body + work_sinks())
    c.unreachable("header-limit-edge", "headers whose size equals the configured limit are not refused", HTTP,
                  [Assume("field", "LimitsConfig.max_request_header_size", EQUAL)],
                  [Sink("too-large", adt="ClientPipelineError::RequestHeadersTooLarge")])
    buffered = Sink("buffer", r"(BytesMut|Vec<.*>|Bytes)(::<.*>)?::(extend_from_slice|put|put_slice|extend|append)$|BufMut::put\w*$|Extend::extend$", where=r"http_utils::body::")
    c.unreachable("body-limit", "no chunk that takes the body over the configured size is buffered", HTTP,
                  [Assume("field", "LimitsConfig.max_request_body_size", OVER)], [buffered])
    chunk = Assume("ret", r"(Bytes|\[u8\]|\[T\]|slice::<impl \[T\]>)(::<.*>)?::len$", PART, where=r"http_utils::body::", argpred=lambda a, fr: "TAG:chunk" in repr(a))
    nxt = Assume("ret", r"(TryStreamExt|StreamExt)(::|>::)try_next$|try_next$", ("RF", Ok(Some(("K", "TAG:chunk")))), where=r"http_utils::body::")
    c.unreachable("body-sum", "a chunk is buffered only if it fits together with everything buffered before it", HTTP,
                  [Assume("field", "LimitsConfig.max_request_body_size", LIMIT), chunk, nxt], [buffered])
    c.unreachable("body-declared", "a declared length over the limit is refused before any of the body is buffered", HTTP,
                  [Assume("field", "LimitsConfig.max_request_body_size", OVER),
                   Assume("ret", r"HeaderMap(::<.*>)?::get$", Some(), where=r"http_utils::body::")],
                  [Sink("chunk", r"BytesMut::\w*$", where=r"http_utils::body::")])
    c.unreachable("body-limit-edge", "a body whose size equals the configured limit is not refused", HTTP,
                  [Assume("field", "LimitsConfig.max_request_body_size", EQUAL)],
                  [Sink("too-large", adt="ReadBodyStreamError::PayloadTooLargeContentLength")])
