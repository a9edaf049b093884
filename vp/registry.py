RULES, META = {}, {}


def prop(pid, explain):
    def d(f):
        RULES[pid] = f
        META[pid] = {"explain": explain}
        return f
    return d


import rules_pipeline, rules_request, rules_response, rules_edge, rules_validation, rules_access, rules_auth, rules_exec, rules_keys, rules_locks, rules_merge, rules_state, rules_wire, rules_order, rules_json, rules_buffers
