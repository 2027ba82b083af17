"""A stand-in for the network, below everything in requests: contracts script
the answers, every request is logged with the verification it would have used."""
LOG = []
SCRIPT = {}


def install():
    import requests
    from requests.adapters import HTTPAdapter

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        LOG.append((request.method, request.url, verify))
        a = SCRIPT.get('answer')
        if a is None: raise requests.ConnectionError('no route')
        r = requests.Response()
        r.status_code = a[0]
        r._content = a[1].encode('utf-8')
        r.encoding = 'utf-8'
        r.url = request.url
        r.request = request
        return r
    HTTPAdapter.send = send


def script(status, text):
    SCRIPT['answer'] = (status, text) if status is not None else None
    del LOG[:]


def calls(): return list(LOG)
