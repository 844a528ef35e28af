"""
A simulated service for object storage, below requests (see net.py): regions,
containers, accounts and tokens, and a delivery network that serves objects
"""
import json
import urllib.parse

IDENTITY = 'https://identity.api.rackspacecloud.com/v2.0/tokens'


class Cloud(object):
    def __init__(self, accounts, regions):
        self.accounts = dict(accounts)      # username -> key
        self.regions = regions
        self.objects = {}                   # (user, region, container) -> {}
        self.tokens = {}                    # token -> username
        self.seen = 0

    def reply(self, status, body=b'', **headers):
        return status, {k.replace('_', '-'): v for k, v in headers.items()}, \
            body

    def handler(self, request):
        self.seen += 1
        url = request.url
        body = request.body or b''
        if hasattr(body, 'read'):
            body = body.read()
        if isinstance(body, str):
            body = body.encode()
        if url == IDENTITY and request.method == 'POST':
            try:
                c = json.loads(body)['auth']['RAX-KSKEY:apiKeyCredentials']
                user, key = c['username'], c['apiKey']
            except Exception:
                return self.reply(400)
            if user not in self.accounts or self.accounts[user] != key:
                return self.reply(401)
            token = 'token%d' % self.seen
            self.tokens[token] = user

            def endpoints(kind):
                return [{'region': r, 'publicURL': 'https://%s.%s.example/v1/%s'
                         % (kind, r.lower(), user)} for r in self.regions]
            return self.reply(200, json.dumps({'access': {
                'token': {'id': token, 'tenant': {'id': '1'}},
                'serviceCatalog': [
                    {'name': 'cloudBackup', 'endpoints': endpoints('backup')},
                    {'name': 'cloudFilesCDN', 'endpoints': endpoints('cdn')},
                    {'name': 'cloudFiles', 'endpoints': endpoints('files')},
                ]}}).encode())
        p = urllib.parse.urlsplit(url)
        parts = p.netloc.split('.')
        path = p.path.split('/')            # '', v1, user, container, name
        kind, region = parts[0], parts[1].upper()
        if kind == 'public':
            user, container = path[1], path[2]
            box = self.objects.get((user, region, container), {})
            return self.get(box, path[3], request.method)
        user, container = path[2], path[3]
        token = request.headers.get('X-Auth-Token')
        if self.tokens.get(token) != user:
            return self.reply(401)
        where = user, region, container
        if kind == 'cdn':
            return self.reply(201, x_cdn_uri='https://public.%s.example/%s/%s'
                              % (region.lower(), user, container))
        if len(path) == 4:
            if request.method == 'PUT':
                self.objects.setdefault(where, {})
                return self.reply(201)
            names = sorted(self.objects.get(where, {}))
            return self.reply(200, '\n'.join(names).encode())
        if where not in self.objects:
            return self.reply(404)
        name = path[4]
        if request.method == 'PUT':
            self.objects[where][name] = body
            return self.reply(201)
        if request.method == 'DELETE':
            there = self.objects[where].pop(name, None) is not None
            return self.reply(204 if there else 404)
        return self.get(self.objects[where], name, request.method)

    def get(self, box, name, method):
        if name not in box:
            return self.reply(404)
        b = box[name]
        return self.reply(200, b if method == 'GET' else b'',
                          Content_Length=str(len(b)))
