PROPS = "C24"
R = "hadar/optimizer/remote/optimizer.py"
EDITS = [
    (R, '''    while resp["status"] in ["QUEUED", "COMPUTING"]:
        resp = requests.get(
            url="%s/api/v1/result/%s" % (url, id), params={"token": token}
        )
        check_code(resp.status_code)
        resp = resp.json()

        if resp["status"] == "QUEUED":
            bar.goto(resp["progress"])

        if resp["status"] == "COMPUTING":
            if spinner is None:
                bar.finish()
                spinner = Spinner("COMPUTING           ")
            spinner.next()

        sleep(0.5)

    if resp["status"] == "ERROR":
        raise ServerError(resp["message"])

    return Result.from_json(resp["result"])''', '''    status = resp["status"]
    while status == "QUEUED" or status == "COMPUTING":
        resp = _ask(url, id, token)
        status = resp.get("status")

        if status == "QUEUED":
            bar.goto(resp["progress"])
        elif status == "COMPUTING":
            if spinner is None:
                bar.finish()
                spinner = Spinner("COMPUTING           ")
            spinner.next()

        sleep(0.5)

    if status == "ERROR":
        raise ServerError(resp["message"])

    result = Result.from_json(resp["result"])
    return result'''),
    (R, '''def solve_remote(''', '''def _ask(url, id, token):
    answer = requests.get(
        params=dict(token=token), url="{}/api/v1/result/{}".format(url, id)
    )
    check_code(answer.status_code)
    return answer.json()


def solve_remote('''),
    (R, '''    if code == 404:
        raise ValueError("Can't find server url")
    if code == 403:
        raise ValueError("Wrong token given")
    if code == 500:
        raise IOError("Error has occurred on remote server")
''', '''    errors = {
        404: (ValueError, "Can't find server url"),
        403: (ValueError, "Wrong token given"),
        500: (IOError, "Error has occurred on remote server"),
    }
    if code in errors:
        kind, message = errors[code]
        raise kind(message)
'''),
]
