#!/usr/bin/env python3
"""
mutants.py [PROPERTY...] — a table of small wrong edits of the code, and
whether the property's check notices each. Prints the ones that survive.
"""
import sys

from mutate import mutate

C = "keygens/curve_25519/"
P = "keygens/passcrypt/"
S = "keygens/package_signer.py"
V = "keygens/package_verifier.py"
A = "_permutations/"
R = "randoms/ids/"
X = "databases/async_database.py"
Y = "databases/sync_database.py"
Z = "databases/database_properties.py"
W = "databases/profile_tokens.py"
I = "__engagement/issue_reporting.py"
H = "ciphers/"
G = "asynchs/guards/"
Q = "asynchs/concurrency_interface.py"

TABLE = {
    "I01": [
        (A + "affine_permutation.py", "        while value > self._MAX:\n            value = (\n                self.config.MULTIPLICATIVE_KEY", "        if value > self._MAX:\n            value = (\n                self.config.MULTIPLICATIVE_KEY"),
        (A + "affine_permutation.py", "        while value > self._MAX:\n            value = (\n                self.config.INVERSE_KEY", "        if value > self._MAX:\n            value = (\n                self.config.INVERSE_KEY"),
        (A + "affine_permutation.py", "        while value > self._MAX:\n            value = (\n                self.config.MULTIPLICATIVE_KEY", "        while value >= self._MAX:\n            value = (\n                self.config.MULTIPLICATIVE_KEY"),
        (A + "affine_xor_chain.py", "new_increment = (self._increment ^ value) | 1", "new_increment = (self._increment ^ value)"),
        (A + "affine_xor_chain.py", "if self.config.DOMAIN > value > 0:", "if self.config.DOMAIN >= value > 0:"),
        (A + "affine_xor_chain.py", "new_in_key = (self._in_key + self._increment) % self.config.DOMAIN", "new_in_key = (self._in_key ^ self._increment) % self.config.DOMAIN"),
        (A + "affine_xor_chain.py", "new_in_key = (self._in_key + self._increment) % self.config.DOMAIN", "new_in_key = (self._in_key + self._increment) % (self.config.DOMAIN - 1)"),
        (A + "affine_xor_chain.py", "                await self._aff_mid.ainvert(\n                    await self._aff_out.ainvert(value ^ self._out_key)\n                    ^ self._out_mid_key,\n                )\n                ^ self._in_mid_key,", "                await self._aff_mid.ainvert(\n                    await self._aff_out.ainvert(value ^ self._out_key)\n                    ^ self._in_mid_key,\n                )\n                ^ self._out_mid_key,"),
        (A + "affine_xor_chain_config.py", 'self.XPAD = int(self.SIZE * "8d", 16)', 'self.XPAD = int(self.SIZE * "8c", 16)'),
        (A + "affine_permutation_config.py", "self.PRIME = datasets.PRIMES[8 * self.SIZE + 1][0]", "self.PRIME = datasets.PRIMES[8 * self.SIZE + 1][0] if self.SIZE < 32 else datasets.PRIMES[8 * self.SIZE][-1]"),
        (R + "sequence_id.py", "return self._permutation.invert(int.from_bytes(value, BIG))", "return self._permutation.uncapped_invert(int.from_bytes(value, BIG))"),
        (A + "affine_permutation.py", "        if len(key) == size:\n            return int.from_bytes(key, BIG)", "        if len(key) >= size:\n            return int.from_bytes(key, BIG)"),
    ],
    "I02": [
        (R + "raw_guid.py", "        with self._lock:  # Threads can't share, or stray from, a tick\n", "        if True:\n"),
        (R + "raw_guid.py", "        with self._lock:  # Threads can't share, or stray from, a tick\n            timestamp = config.clock.make_timestamp(\n                size=config.TIMESTAMP_BYTES,\n            )\n", "        timestamp = config.clock.make_timestamp(size=config.TIMESTAMP_BYTES)\n        with self._lock:\n"),
        (R + "raw_guid.py", "(self.tick + 1) & c.TICK_DOMAIN", "(self.tick + 1) % c.TICK_DOMAIN"),
        (R + "raw_guid.py", "(self.tick + 1) & c.TICK_DOMAIN", "(self.tick + 2) & c.TICK_DOMAIN"),
        (R + "raw_guid.py", "        return timestamp + token + self.node_id + ticker", "        return timestamp + token + self.node_id[:1].replace(b'\\xff', b'\\xfe') + ticker"),
        (R + "raw_guid_config.py", "return self.timestamp + self.node_id + self.ticker + self.token", "return self.timestamp + self.token + self.node_id + self.ticker"),
        (R + "raw_guid_config.py", "return self.sort_key > other.sort_key", "return self.sort_key >= other.sort_key"),
        (R + "raw_guid_config.py", "return self.sort_key < other.sort_key", "return self.timestamp < other.timestamp"),
        (R + "guid.py", "key = key or c._DEFAULT_KEY", "key = c._DEFAULT_KEY"),
        (R + "guid.py", "        original = await self._permutation.ainvert(guid)", "        original = await self._permutation.auncapped_invert(guid)"),
        (R + "raw_guid_config.py", "        if not len(guid) == config.SIZE:", "        if not len(guid) >= config.SIZE:"),
        (R + "guid.py", "            raise Issue.invalid_length(\"guid\", len(guid))\n        guid = int.from_bytes(guid, BIG)\n        original = self", "            pass\n        guid = int.from_bytes(guid, BIG)\n        original = self"),
        (R + "raw_guid.py", "if len(node_id) != node_id_bytes:", "if len(node_id) < node_id_bytes:"),
    ],
    "K04": [
        (S, "            salt=salt,\n", ""),
        (S, "date=date or self._clock.time(),", "date=date and self._clock.time(),"),
        (S, "            *secret_credentials,\n            username=username,", "            *secret_credentials[:1],\n            username=username,"),
        (S, "self._SCOPE: dict(sorted(self._scope.items())),", "self._SCOPE: dict(sorted(self._scope.items())[:2]),"),
        (S, "            signing_key.verify(signature, checksum)\n", "            self.db\n"),
        (S, "if not encrypted_key:\n                raise KeyError", "if encrypted_key is None:\n                raise KeyError"),
        (S, "payload = {version: signature}\n", "payload = {version: signature}\n        self.files.clear() if hasattr(self.files, 'none') else 0\n        self.db[self._scope.package][self._VERSIONS].clear()\n"),
        (S, "            self.db.query_tag(self._scope.package, cache=True)\n        except LookupError:", "            raise LookupError\n        except LookupError:"),
        (V, "            if not bytes_are_equal(purported_digest, digest):", "            if source_data and not bytes_are_equal(purported_digest, digest):"),
        (V, "source_data = Path(path / file_path).read_bytes()", "if not Path(path / file_path).exists():\n                continue\n            source_data = Path(path / file_path).read_bytes()"),
        (V, "        if purported_signing_key != self._signing_key.public_bytes:", "        if len(purported_signing_key) != 32:"),
        (V, "        self._signing_key.verify(self._signature, self._checksum)", "        pass"),
        (V, "        if not bytes_are_equal(calculated_checksum, self._checksum):", "        if len(calculated_checksum) != len(self._checksum):"),
        (V, "            self._verify_file_checksums(summary)\n", "            self._verify_file_checksums(summary)\n            del self._path\n"),
        (V, "        summary = self._summary_dictionary = {**summary}", "        self._summary_dictionary = summary"),
    ],
    "K02": [
        (P + "interface.py", "tag = await self.anew(passphrase, salt, aad=timestamp + aad)", "tag = await self.anew(passphrase, salt, aad=aad + timestamp)"),
        (P + "interface.py", "pepper=self.PEPPER,", "pepper=b'',"),
        (P + "interface.py", "if not bytes_are_equal(untrusted_hash, parts.tag):", "if not bytes_are_equal(untrusted_hash[:16], parts.tag[:16]):"),
        (P + "interface.py", "ttl = ttl and math.floor(ttl * config.S_TO_TIME_UNIT_RATIO)", "ttl = ttl and math.ceil(ttl * config.S_TO_TIME_UNIT_RATIO) + 1"),
        (P + "sessions_manager.py", "core_aad = canonical_pack(pepper, aad, core, total_mb)", "core_aad = canonical_pack(pepper + aad, core, total_mb)"),
        (P + "session_init.py", "key=self.passphrase + self.salt + self.aad,", "key=self.passphrase[:64] + self.salt + self.aad,"),
        (P + "interface.py", "*[session.result() for session in sessions],", "sessions[0].result(),"),
    ],
    "K03": [
        (P + "hash_format.py", "cpu=to_int(read(config.CPU_BYTES), BIG) + 1,", "cpu=(to_int(read(config.CPU_BYTES), BIG) or 1) + 1,"),
        (P + "hash_format.py", "self.cpu in cpu_allowed or proc(exc(CPU, header))", "self.cpu < cpu_allowed.stop or proc(exc(CPU, header))"),
        (P + "hash_format.py", "self.cores in cores_allowed or proc(exc(CORES, header))", "self.cores <= cores_allowed.stop or proc(exc(CORES, header))"),
        (P + "config.py", "len(passphrase) >= self.MIN_PASSPHRASE_BYTES", "len(passphrase) > self.MIN_PASSPHRASE_BYTES"),
        (P + "config.py", "salt_size_limits = range(self.MIN_SALT_SIZE, self.MAX_SALT_SIZE + 1)", "salt_size_limits = range(self.MIN_SALT_SIZE, self.MAX_SALT_SIZE)"),
        (P + "config.py", "(tag_size_is_int) and (tag_size >= self.MIN_TAG_SIZE)", "(tag_size_is_int)"),
        (P + "config.py", "(mb.__class__ is int) and (mb in mb_limits)", "mb in mb_limits"),
        (P + "interface.py", "        parts.in_allowed_ranges(mb_allowed, cpu_allowed, cores_allowed)\n        self = cls(\n            mb=parts.mb,\n            cpu=parts.cpu,\n            cores=parts.cores,\n            tag_size=parts.tag_size,\n            config=config,\n        )\n        untrusted_hash = self.new(\n            passphrase,\n            parts.salt,\n            aad=parts.timestamp + aad,\n        )\n", "        self = cls(\n            mb=parts.mb,\n            cpu=parts.cpu,\n            cores=parts.cores,\n            tag_size=parts.tag_size,\n            config=config,\n        )\n        untrusted_hash = self.new(\n            passphrase,\n            parts.salt,\n            aad=parts.timestamp + aad,\n        )\n        parts.in_allowed_ranges(mb_allowed, cpu_allowed, cores_allowed)\n"),
        (P + "hash_format.py", "            tag=read(),", "            tag=read(512),"),
    ],
    "K01": [
        (C + "double_diffie_hellman_client.py", "self._peer_identity_key.public_bytes_raw(),\n            self._peer_ephemeral", "self._peer_ephemeral"),
        (C + "double_diffie_hellman_client.py", "shared_key_ad = my_ephemeral_key.exchange(peer_identity_key)", "shared_key_ad = my_ephemeral_key.exchange(peer_ephemeral_key)"),
        (C + "triple_diffie_hellman_server.py", "shared_key_bc = my_ephemeral_key.exchange(peer_identity_key)", "shared_key_bc = my_identity_key.exchange(peer_identity_key)"),
        (C + "triple_diffie_hellman_client.py", "self._peer_identity_key = self._sanitize(peer_identity_key)\n        self._my_ephemeral_key = self._key_exchange_type().generate()", "object.__setattr__(self, '_peer_identity_key', self._sanitize(peer_identity_key))\n        object.__setattr__(self, '_my_ephemeral_key', self._key_exchange_type().generate())"),
        (C + "double_diffie_hellman_server.py", "        my_ephemeral_key = (\n            self._my_ephemeral_key\n        ) = await self._key_exchange_type().agenerate()\n", "        if hasattr(self, '_my_ephemeral_key'):\n            raise PermissionError\n        my_ephemeral_key = await self._key_exchange_type().agenerate()\n        object.__setattr__(self, '_my_ephemeral_key', my_ephemeral_key)\n        object.__setattr__(self, '_peer_ephemeral_key', 0)\n        self = type('S', (), dict(_my_identity_key=self._my_identity_key, _sanitize=self._sanitize, _kdf_type=self._kdf_type))()\n"),
        (C + "shared_interface.py", "elif issubclass(key_type, cls.PublicKey):\n            return public_key\n        else:\n            raise Issue.must_be_type(\"public_key\", \"valid key type\")", "elif issubclass(key_type, cls.PublicKey):\n            return public_key\n        else:\n            return cls.PublicKey.from_public_bytes(bytes(public_key))"),
    ],
    "K05": [
        ("keygens/domain_kdf.py", "kdf._payload = self._payload.copy()", "kdf._payload = self._payload"),
        ("keygens/domain_kdf.py", "payload.update(canonical_pack(*data, blocksize=payload.block_size))", "payload.update(b''.join(data))"),
        ("keygens/domain_kdf.py", "payload.update(canonicalized_data)\n        return self", "payload.update(canonicalized_data + b'\\0')\n        return self"),
        ("keygens/domain_kdf.py", "key=key + domain,", "key=domain or key,"),
        ("keygens/domain_kdf.py", "            Domains.KDF,\n            domain,\n", "            Domains.KDF,\n"),
        ("keygens/domain_kdf.py", "return hash_bytes(\n            aad,\n", "return hash_bytes(\n            *([aad] if aad else []),\n"),
        ("generics/hashing.py", "(size or obj.digest_size).to_bytes(INT_BYTES, BIG),\n        *collection,\n        blocksize=obj.block_size,\n        pad=pad,\n    )\n    obj.update(canonicalized_data)\n    if size:\n        return obj.digest(size)\n    return obj.digest()\n\n\nmodule_api", "b'',\n        *collection,\n        blocksize=obj.block_size,\n        pad=pad,\n    )\n    obj.update(canonicalized_data)\n    if size:\n        return obj.digest(size)\n    return obj.digest()\n\n\nmodule_api"),
        ("keygens/domain_kdf.py", 'return self._run_kdf(*data, aad=aad, obj=HASHER_TYPES["sha3_256"])', 'out = self._run_kdf(*data, aad=aad, obj=HASHER_TYPES["sha3_256"])\n        self._payload.update(out) if len(data) > 1 else 0\n        return out'),
    ],
    "K06": [
        (C + "shared_interface.py", "if self.has_public_key():\n            raise Issue.cant_reassign_attribute(\"public_key\")\n        insert = object.__setattr__\n        insert(self, \"_secret_key\", self._process", "if self.has_secret_key():\n            raise Issue.cant_reassign_attribute(\"public_key\")\n        insert = object.__setattr__\n        insert(self, \"_secret_key\", self._process"),
        (C + "shared_interface.py", "insert(self, \"_secret_key\", None)\n", "insert(self, \"_secret_key\", None)\n        insert(self, \"_public_key\", public_key)\n"),
        (C + "ed25519.py", "if public_key is None:", "if public_key is None or self.has_secret_key():"),
        (C + "ed25519.py", "self.verify(signature=signature, data=data, public_key=public_key)", "self.verify(signature=signature, data=data)"),
        (C + "ed25519.py", "public_key.verify(signature, data)", "public_key.verify(signature[:64], data)"),
        (C + "x25519.py", "return self._secret_key.exchange(public_key)\n\n    @classmethod", "return self._secret_key.exchange(public_key) if self._secret_key else b''\n\n    @classmethod"),
    ],
    "N01": [
        ("generics/canon.py", "if not blocksize or total_size % blocksize:", "if not blocksize:"),
        ("generics/canon.py", "if not blocksize or total_size % blocksize:", "if blocksize and total_size % blocksize:"),
        ("generics/canon.py", "elif len(pad) != 1 or not set(pad)", "elif not pad or not set(pad)"),
        ("generics/canon.py", "or not set(pad).issuperset(read())", "or not read().endswith(pad)"),
        ("generics/canon.py", "or not set(pad).issuperset(read())", "or read().strip(pad + b'\\0')"),
        ("generics/canon.py", "or not set(pad).issuperset(read())", ""),
        ("generics/canon.py", "if len(item_size_blob) != int_bytes or len(item) != item_size:", "if len(item) != item_size:"),
        ("generics/canon.py", "if len(item_size_blob) != int_bytes or len(item) != item_size:", "if len(item_size_blob) != int_bytes:"),
        ("generics/canon.py", "except IndexError as error:\n        raise CanonicalIssue.missing_metadata_items() from error", "except ZeroDivisionError as error:\n        raise CanonicalIssue.missing_metadata_items() from error"),
        ("generics/canon.py", "yield len(items).to_bytes(int_bytes, BIG)\n    for item in items:\n        yield len(item).to_bytes(int_bytes, BIG) + item", "yield len(items).to_bytes(int_bytes, BIG)\n    for item in items:\n        yield len(item).to_bytes(int_bytes, LITTLE) + item"),
        ("generics/canon.py", "if total_size < int_bytes * (item_count + 1) + 3:", "if total_size < int_bytes * (item_count + 1) + 4:"),
        ("generics/canon.py", "item = read(min(item_size, sys.maxsize))", "item = read(item_size)"),
        ("generics/canon.py", "return fullblock_ljust(b\"\".join(items), blocksize, pad=pad)", "return fullblock_ljust(b\"\".join(items), blocksize, pad=b\"\\0\")"),
        ("generics/canon.py", "return data.ljust(blocksize * ceil(len(data) / blocksize), pad)", "return data.ljust(blocksize * (len(data) // blocksize + 1), pad)"),
    ],
    "N02": [
        ("generics/byte_io.py", "phrase.split()", "phrase.strip().split(b' ')"),
        ("generics/transform.py", "digits.append(base_table[number % base])\n        number //= base\n    digits.reverse()\n    await", "digits.append(base_table[number % base])\n        number = int(number / base)\n    digits.reverse()\n    await"),
        ("generics/transform.py", "digits.append(base_table[number % base])\n        number //= base\n    digits.reverse()\n    if", "digits.append(base_table[number % base])\n        number = int(number / base)\n    digits.reverse()\n    if"),
        ("generics/transform.py", "    if not number:\n        return table[:1]", "    if not number:\n        return table[:0]"),
        ("generics/transform.py", "        if char not in base_table:", "        if char not in table:"),
        ("generics/transform.py", "    if number < 0:", "    if False:"),
        ("generics/transform.py", "elif base < 2:", "elif base < 1:"),
        ("generics/byte_io.py", 'Path(path).open("ab+")', 'Path(path).open("wb+")'),
        ("generics/byte_io.py", "return await f.read(size)", "return await f.read(size or -1)"),
        ("generics/byte_io.py", 'Path(path).open("wb+")', 'Path(path).open("rb+" if Path(path).exists() else "wb+")'),
    ],
    "N03": [
        ("asynchs/clocks.py", "return int((time_ns() - epoch) // unit.as_ns)", "return int((time_ns() - epoch) / unit.as_ns)"),
        ("asynchs/clocks.py", "return int((time_ns() - epoch) // unit.as_ns)", "return int(time_ns() // unit.as_ns - epoch // unit.as_ns)"),
        ("asynchs/clocks.py", "return int((time_ns() - epoch) // unit.as_ns)", "return round((time_ns() - epoch) / unit.as_ns)"),
        ("asynchs/clocks.py", "delta > ttl", "delta >= ttl"),
        ("asynchs/clocks.py", "        timestamp_is_expired = delta > ttl\n        expired_by = delta - ttl\n        if timestamp_is_expired:\n            raise self.TimestampExpired(self.unit.name, expired_by)\n\n\nmodule", "        timestamp_is_expired = delta > ttl\n        expired_by = delta\n        if timestamp_is_expired:\n            raise self.TimestampExpired(self.unit.name, expired_by)\n\n\nmodule"),
        ("asynchs/clocks.py", "stamp = await self.aread_timestamp(timestamp, byte_order=byte_order)", "stamp = await self.aread_timestamp(timestamp)"),
        ("asynchs/clocks.py", "return self.time() - stamp", "return max(0, self.time() - stamp)"),
        ("asynchs/clocks.py", "if ttl is None:", "if not ttl:"),
        ("asynchs/clocks.py", "as_ns: int | float = Centiseconds.as_ns * 10", "as_ns: int | float = Centiseconds.as_ns * 10 + 1"),
        ("asynchs/clocks.py", "round(Days.as_ns * _YEAR_WITH_LEAP_DAYS)", "Days.as_ns * _YEAR_WITH_LEAP_DAYS"),
        ("asynchs/clocks.py", "round(Days.as_ns * _YEAR_WITH_LEAP_DAYS)", "Days.as_ns * 365"),
        ("asynchs/clocks.py", "return self.time().to_bytes(size, byte_order)", "return self.time().to_bytes(16, byte_order)[-size:]"),
    ],
    "N06": [
        ("_gentools.py", "while coroutines:", "while True:"),
        ("_gentools.py", "yield [await coroutine() for coroutine in coroutines]", "yield list(await asyncio.gather(*[c() for c in coroutines]))"),
        ("_gentools.py", "if blocks is None or (blocks * size >= length):\n        blocks = length + size\n    else:\n        blocks = (blocks * size) + 1\n    for", "if blocks is None or (blocks * size > length):\n        blocks = length + size\n    else:\n        blocks = (blocks * size)\n    for"),
        ("_gentools.py", "for result in iterable:\n        yield result\n        results.append(result)", "for result in list(iterable):\n        yield result\n        results.append(result)"),
        ("_gentools.py", "async for result in iterable:\n            yield result\n            results.append(result)", "async for result in iterable:\n            yield result\n            results.append(result) if result not in results else 0"),
        ("_gentools.py", "    for iterable in iterables:\n        yield from iterable", "    for iterable in iterables:\n        yield from list(iterable)"),
        ("_gentools.py", "while True:\n            await asyncio.sleep(0)\n            yield queue.popleft()", "for _ in range(len(queue)):\n            await asyncio.sleep(0)\n            yield queue.popleft()"),
        ("_gentools.py", "yield index.to_bytes(size, byte_order)\n        index += 1\n\n\ndef", "yield index.to_bytes(size, BIG)\n        index += 1\n\n\ndef"),
        ("_gentools.py", "yield index.to_bytes(size, byte_order)\n        index += 1", "yield (index % 256**size).to_bytes(size, byte_order)\n        index += 1"),
        ("_gentools.py", "    if is_async_iterable(iterable):\n        async for item in iterable:\n            yield item", "    if is_async_iterable(iterable):\n        for item in [x async for x in iterable]:\n            yield item"),
        ("_gentools.py", "    while results:\n        for result in results:\n            yield result", "    while any(results):\n        for result in results:\n            yield result"),
    ],
    "N05": [
        (Q, "        while task.is_alive() and queue.empty():\n            sleep(delay)\n", "        while task.is_alive():\n            sleep(delay)\n"),
        (Q, "        while task.is_alive() and queue.empty():\n            await asleep(delay)\n", "        task.join()\n"),
        (Q, "        while task.is_alive() and queue.empty():\n            sleep(delay)\n        try:\n            return queue.get_nowait()", "        while queue.empty():\n            sleep(delay)\n        try:\n            return queue.get_nowait()"),
        (Q, "        while task.is_alive() and queue.empty():\n            await asleep(delay)\n        try:\n            return queue.get_nowait()", "        while queue.empty() and task.is_alive():\n            await asleep(delay)\n        try:\n            return None if queue.empty() else queue.get_nowait()"),
        (Q, "queue.put_nowait(func(*args, **kwargs))\n\n    @staticmethod", "queue.put_nowait(func(*args, **kwargs) or None)\n\n    @staticmethod"),
        (Q, "return [task.result() for task in tasks]", "import concurrent.futures\n            return [task._original_result() for task in concurrent.futures.as_completed(tasks)]"),
        (Q, "return [await task.aresult() for task in tasks]", "return [await task.aresult() for task in tasks if not task.done() or not task.exception()]"),
        (Q, "return [task.result() for task in tasks]", "return [task.result() for task in set(tasks)]"),
        (Q, "        tasks = [cls.submit(func, *args, **kwargs) for func in functions]", "        tasks = [cls.submit(func, *args) for func in functions]"),
        (Q, "            return future._original_result()\n\n        def result", "            return future._original_result() if not future.exception() else None\n\n        def result"),
        ("asynchs/processes.py", "cls.pool = cls.pool.__class__(mp_context=cls._context)", "pass"),
        (Q, "queue = cls._get_queue()\n        task = cls._type(\n            target=cls._run_func", "queue = cls.__dict__.get('_queue') or cls._get_queue()\n        cls._queue = queue\n        task = cls._type(\n            target=cls._run_func"),
    ],
    "N04": [
        ("commons/slots.py", "        for name in tuple(getattr(self, DICT, ())):\n            del self[name]\n", "        getattr(self, DICT, {}).clear()\n"),
        ("commons/slots.py", "        if name in self:\n            raise Issue.cant_reassign_attribute(name)\n", "        if name in self.__slots__ and hasattr(self, name):\n            raise Issue.cant_reassign_attribute(name)\n"),
        ("commons/namespaces.py", "        if name in self:\n            raise Issue.cant_reassign_attribute(name)\n", "        if name in [*self]:\n            raise Issue.cant_reassign_attribute(name)\n"),
        ("commons/namespaces.py", "        if name in self:\n            raise Issue.cant_reassign_attribute(name)\n", "        if getattr(self, str(name), None):\n            raise Issue.cant_reassign_attribute(name)\n"),
        ("commons/typed_slots.py", "        if name in self:\n            raise Issue.cant_reassign_attribute(name)\n", "        if name in self and not self[name] is value:\n            raise Issue.cant_reassign_attribute(name)\n"),
        ("commons/typed_slots.py", "        raise Issue.cant_deassign_attribute(name)", "        if name in self.slots_types:\n            raise Issue.cant_deassign_attribute(name)\n        super().__delitem__(name)"),
        ("commons/typed_slots.py", "        self._validate_type(name, value)\n        super().__setitem__(name, value)", "        super().__setitem__(name, value)\n        self._validate_type(name, value)"),
        ("commons/typed_slots.py", "for base in reversed(cls.__mro__):", "for base in cls.__mro__[:1]:"),
        ("commons/slots.py", "if name in self._RESTRICTED_ATTRIBUTES:", "if name in self._RESTRICTED_ATTRIBUTES and name.__class__ is not str:"),
        ("commons/slots.py", "if name in self and name not in unmapped_attributes:", "if name in self:"),
        ("commons/slots.py", "return (in_slots and hasattr(self, name)) or in_dict", "return in_slots or in_dict"),
        ("commons/slots.py", "if mask and not DebugControl.is_debugging():", "if mask and DebugControl.is_debugging():"),
        ("commons/slots.py", "if mask and not DebugControl.is_debugging():", "if mask:"),
        ("commons/slots.py", "return f\"{OMITTED}{value.__class__}\"", "return f\"{OMITTED}{value.__class__}\" if value else repr(value)"),
        ("commons/instances.py", "if hasattr(self, name):\n            raise", "if getattr(self, name, None):\n            raise"),
        ("commons/instances.py", "        raise Issue.cant_deassign_attribute(name)", "        object.__delattr__(self, name)"),
        ("commons/instances.py", "f'<set>{get(name)}'", "f'<set>{getattr(self, name)}'"),
        ("commons/configs.py", "elif config_id in self and self[config_id] is not config:", "elif config_id in self and self[config_id] == config:"),
        ("commons/configs.py", "elif config_id != self.CONFIG_ID:", "elif not self.CONFIG_ID:"),
        ("commons/configs.py", "if not issubclass(config.__class__, self.CONFIG_TYPE):", "if not issubclass(config.__class__, Config):"),
        ("commons/slots.py", "return sum(1 for name in self)", "return len(self.__slots__)"),
        ("commons/slots.py", "        for name in self:\n            yield self[name]", "        for name in self:\n            yield getattr(self, str(name))"),
    ],
    "D01": [
        (Y, "        with Ignore(KeyError, AttributeError, if_except=track_failure):\n            del self._cache[filename]\n", "        with Ignore(KeyError, AttributeError, if_except=track_failure):\n            self._cache[filename]\n"),
        (X, "        with Ignore(FileNotFoundError, if_except=track_failure):\n            await self._adelete_file(filename)\n", "        with Ignore(FileNotFoundError, if_except=track_failure):\n            if filename not in self._cache and len(failures) < 1:\n                await self._adelete_file(filename)\n"),
        (Y, "        if not (self.path / filename).is_file():\n            with Ignore(AttributeError):\n                delattr(self._manifest, filename)\n", "        if filename not in self._cache:\n            with Ignore(AttributeError):\n                delattr(self._manifest, filename)\n"),
        (X, "        if not (self.path / filename).is_file():\n            with Ignore(AttributeError):\n                delattr(self._manifest, filename)\n", ""),
        (X, "        with Ignore(LookupError):\n            cache and await self.aquery_tag(tag, cache=True)\n", ""),
        (Y, "            cache and self.query_tag(tag, cache=True)\n", "            self.query_tag(tag, cache=True)\n"),
        (Y, "        if cache:\n            setattr(self._cache, filename, result)\n        return result", "        setattr(self._cache, filename, result)\n        return result"),
        (X, "        if not cache:\n            await self.asave_tag(tag, drop_cache=True)", "        if not cache:\n            await self.asave_tag(tag)"),
        (Z, "        return filename in self._manifest or filename in self._cache", "        return filename in self._cache"),
        (Z, "return bool(contains_tags or contains_metatags)", "return bool(contains_tags)"),
        (Z, "        with Ignore(FileNotFoundError):\n            (self.path / filename).unlink()\n", ""),
        (Z, "        with Ignore(KeyError, AttributeError):\n            del self._cache[filename]\n", ""),
        (Z, "        if filename in self._cache:\n            return getattr(self._cache, filename)\n\n    def __del", "        return getattr(self._cache, filename, None) or None\n\n    def __del"),
        (Y, "        if value.__class__ is bytes:\n            value = BYTES_FLAG + value", "        if value and value.__class__ is bytes:\n            value = BYTES_FLAG + value"),
        (X, "        if (not silent) and (len(failures) == 3):", "        if (not silent) and failures:"),
        (X, "            if drop_cache and hasattr(self._cache, filename):\n                delattr(self._cache, filename)", "            if drop_cache:\n                self._cache.clear()"),
    ],
    "D02": [
        (Y, "        for filename in self._cache:\n            save(filename)", "        for filename in self.filenames:\n            if getattr(self._cache, filename, None):\n                save(filename)"),
        (X, "        filenames = self._cache\n", "        filenames = list(self._cache)[:3]\n"),
        (Y, "            self._manifest = Namespace(self._open_manifest())\n            self._root_salt = self._load_root_salt()", "            self._manifest = Namespace(self._open_manifest())\n            self._root_salt = self._load_root_salt()\n            self._manifest[self._METATAGS_LEDGERNAME] = []"),
        (X, "        await self._aclose_manifest()\n        await gather(self._asave_metatags(), self._asave_tags())", "        await self._aclose_manifest()\n        await self._asave_tags()"),
        (X, "        if result[:BYTES_FLAG_SIZE] == BYTES_FLAG:\n            result = result[BYTES_FLAG_SIZE:]", "        if result[:BYTES_FLAG_SIZE] == BYTES_FLAG:\n            result = result.replace(BYTES_FLAG, b'')"),
        (Y, "            self._save_file(filename, admin=admin)\n", "            self._save_file(filename, admin=admin)\n            self._close_manifest()\n"),
        (Y, "        if manifest:\n            self._load_manifest()\n        if preload:", "        if preload:"),
        (X, "        self.path = await self._aformat_path(path)\n", "        self.path = (await self._aformat_path(path)).resolve().parent if False else await self._aformat_path(path)\n        self.path = self.path if not metatag else self.path\n        silent = False\n"),
        (X, "        tag_values = (\n            self.aquery_tag(tag, silent=silent, cache=True) for tag in tags\n        )", "        tag_values = (\n            self.aquery_tag(tag, silent=silent, cache=len(tag) > 1) for tag in tags\n        )"),
        (Y, "            value = json.dumps(value).encode()\n        ciphertext = self", "            value = json.dumps(value, ensure_ascii=False).encode(errors='replace')\n        ciphertext = self"),
    ],
    "D03": [
        (X, "            hasattr(self, tag) or setattr(self, tag, sub_database)", "            setattr(self, tag, sub_database)"),
        (X, "            aad=self._DBDomains.METATAG_KEY,\n", "            aad=self._DBDomains.MANIFEST,\n"),
        (Y, "        return self._root_kdf.sha3_512(\n            self._root_salt,\n            tag.encode(),\n            aad=self._DBDomains.METATAG_KEY,", "        return self._root_kdf.sha3_512(\n            self._root_salt,\n            aad=self._DBDomains.METATAG_KEY,"),
        (Y, "                getattr(self, metatag).clear_cache(metatags=metatags)", "                getattr(self, metatag).clear_cache(metatags=False)"),
        (X, "                await getattr(self, metatag).aclear_cache(metatags=metatags)", "                getattr(self, metatag)._cache.clear()"),
        (Y, "            self.metatag(metatag, preload=preload, silent=silent)", "            self.metatag(metatag, preload=False, silent=silent)"),
        (Y, "            self.metatag(metatag, preload=False).delete_database()\n", "            self.metatag(metatag, preload=False)._delete_file(self.metatag(metatag)._root_filename, silent=True)\n"),
        (X, "        delattr(self, tag)\n        self._manifest[self._METATAGS_LEDGERNAME].remove(tag)", "        delattr(self, tag)\n        self._manifest[self._METATAGS_LEDGERNAME].clear()"),
        (Y, "        delattr(self, tag)\n        self._manifest[self._METATAGS_LEDGERNAME].remove(tag)", "        delattr(self, tag)\n        self._manifest[self._METATAGS_LEDGERNAME].pop()"),
        (X, "        if tag not in self.metatags:\n            self._manifest[self._METATAGS_LEDGERNAME].append(tag)", "        if tag not in self.metatags and not self._is_metatag:\n            self._manifest[self._METATAGS_LEDGERNAME].append(tag)"),
        (Y, "        if hasattr(cls, tag):\n            raise Issue.cant_reassign_attribute(tag)  # fixed v0.23.9\n        elif hasattr(self, tag):", "        if hasattr(self, tag):"),
        (Y, "        for metatag in self.metatags:\n            getattr(self, metatag).save_database()", "        for metatag in self.metatags:\n            getattr(self, metatag)._close_manifest()\n            getattr(self, metatag)._save_tags()"),
    ],
    "D04": [
        (Y, "        self._delete_file(self._root_filename, silent=True)\n        self._delete_profile", "        self._delete_profile"),
        (X, "        for filename in self.filenames:\n            await self._adelete_file(filename, silent=True)", "        for filename in self._cache:\n            await self._adelete_file(filename, silent=True)"),
        (Y, "        for filename in self.filenames:\n            self._delete_file(filename, silent=True)\n", "        for path in list(self.path.iterdir()):\n            if path.is_file():\n                path.unlink()\n"),
        (X, "        for filename in self.filenames:\n            await self._adelete_file(filename, silent=True)", "        for filename in self.filenames:\n            await self._adelete_file(filename)"),
        (X, "        for metatag in self.metatags:\n            sub_db = await self.ametatag(metatag, preload=False)\n            await sub_db.adelete_database()\n", "        for metatag in self.metatags:\n            if metatag in self.__dict__:\n                sub_db = getattr(self, metatag)\n                sub_db.metatags and await sub_db.aload_database(manifest=True, preload=False)\n                await sub_db.adelete_database()\n            break\n"),
        (Z, "        return admin_files.symmetric_difference(self._manifest.__dict__)", "        return admin_files.union(self._manifest.__dict__)"),
    ],
    "D05": [
        (Y, "        key = self._root_kdf.shake_128(\n            self._DBDomains.CIPHER,\n            self._root_salt,\n            filename.encode(),\n            aad=aad,\n            size=MIN_KEY_BYTES,\n        )\n        return self._Cipher(key).bytes_encrypt(plaintext)", "        key = self._root_kdf.shake_128(\n            self._DBDomains.CIPHER,\n            self._root_salt,\n            aad=aad,\n            size=MIN_KEY_BYTES,\n        )\n        return self._Cipher(key).bytes_encrypt(plaintext)", Y, "        key = self._root_kdf.shake_128(\n            self._DBDomains.CIPHER,\n            self._root_salt,\n            filename.encode(),\n            aad=aad,\n            size=MIN_KEY_BYTES,\n        )\n        return self._Cipher(key).bytes_decrypt(ciphertext, ttl=ttl)", "        key = self._root_kdf.shake_128(\n            self._DBDomains.CIPHER,\n            self._root_salt,\n            aad=aad,\n            size=MIN_KEY_BYTES,\n        )\n        return self._Cipher(key).bytes_decrypt(ciphertext, ttl=ttl)"),
        (Y, "        if ciphertext is None:\n            return\n\n        result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)", "        if not ciphertext:\n            return\n\n        result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)"),
        (X, "        result = await self.abytes_decrypt(\n            ciphertext,\n            filename=filename,\n            ttl=ttl,\n        )\n        if result", "        try:\n            result = await self.abytes_decrypt(\n                ciphertext,\n                filename=filename,\n                ttl=ttl,\n            )\n        except self.InvalidSHMAC:\n            if not silent:\n                raise\n            return\n        if result"),
        (Y, "        if self._root_path.exists():\n            self._manifest = Namespace(self._open_manifest())", "        if self._root_path.exists() and self._root_path.stat().st_size:\n            self._manifest = Namespace(self._open_manifest())"),
        (X, "        if self._root_path.exists():\n            self._manifest = Namespace(await self._aopen_manifest())", "        if self._root_path.exists() and self._root_path.stat().st_size:\n            self._manifest = Namespace(await self._aopen_manifest())"),
    ],
    "D06": [
        (W, "            aad,\n            username,\n            *credentials,\n            key=device_salt,", "            aad,\n            username,\n            b''.join(credentials),\n            key=device_salt,"),
        (W, "        self._gist = hash_bytes(\n            DBDomains.GIST,\n            device_salt,\n            salt,\n            aad,\n", "        self._gist = hash_bytes(\n            DBDomains.GIST,\n            device_salt,\n            salt + aad,\n"),
        (W, "        pcrypt = Passcrypt(tag_size=MIN_KEY_BYTES, **passcrypt_settings)\n        return pcrypt.new(", "        passcrypt_settings['cpu'] = 1\n        pcrypt = Passcrypt(tag_size=MIN_KEY_BYTES, **passcrypt_settings)\n        return pcrypt.new("),
        (W, "                self._gist,\n                key=passphrase,\n                hasher=sha3_512,\n            ),\n            salt=self._salt,\n            aad=DBDomains.PROFILE_LOGIN_KEY,\n        )\n\n    async def", "                self._gist,\n                key=passphrase[:64],\n                hasher=sha3_512,\n            ),\n            salt=self._salt,\n            aad=DBDomains.PROFILE_LOGIN_KEY,\n        )\n\n    async def"),
        (X, "            if salt_path.is_file():\n                await adelete_salt_file(salt_path)", "            if salt_path.is_file() and not self._is_metatag:\n                pass"),
        (W, "            device_salt,\n            salt,\n            aad,\n            username,\n            *credentials,\n            key=device_salt,", "            salt,\n            aad,\n            username,\n            *credentials,\n            key=username,"),
        (Y, "        if not profile_db._root_path.is_file():\n            profile_db.save_database()\n", ""),
    ],
    "E01": [
        (H + "padding.py", "            sentinel += c.PADDING_FRAME\n        return -sentinel\n\n    def", "            sentinel += 0\n        return -sentinel or None\n\n    def"),
        (H + "padding.py", "            sentinel += c.PADDING_FRAME\n        return -sentinel\n\n    async def adepad_plaintext(", "            sentinel += len(data)\n        return -sentinel\n\n    async def adepad_plaintext("),
        (H + "cipher_interface.py", "            await self._padding.apad_plaintext(data),", "            await self._padding.apad_plaintext(data.rstrip(b'\\x00') if len(data) > 300 else data),"),
        (H + "cipher_interface.py", "        return json.loads(self.bytes_decrypt(data, aad=aad, ttl=ttl))", "        return json.loads(self.bytes_decrypt(data, aad=aad, ttl=ttl) or b'null')", H + "cipher_interface.py", "            json.dumps(data).encode(),\n            salt=salt,\n            aad=aad,\n        )\n\n    async def ajson_decrypt", "            json.dumps(data).encode() if data is not None else b'0',\n            salt=salt,\n            aad=aad,\n        )\n\n    async def ajson_decrypt"),
        (H + "cipher_streams.py", "            if len(chunk) != missing_bytes:\n                return\n        while True:\n            block", "            if len(chunk) < missing_bytes - 1:\n                return\n        while True:\n            block"),
        ("generics/byte_io.py", "        return urlsafe_b64encode(value).replace(b\"=\", b\"\")\n\n    @staticmethod\n    def bytes_to_urlsafe", "        return urlsafe_b64encode(value)[:-2]\n\n    @staticmethod\n    def bytes_to_urlsafe"),
    ],
    "E02": [
        (H + "key_bundle.py", "        summary = canonical_pack(*self, int_bytes=4)", "        summary = canonical_pack(self.salt, self.aad[:64], self.iv, int_bytes=4)"),
        (H + "key_bundle.py", "        summary = canonical_pack(*self, int_bytes=4)", "        summary = canonical_pack(self.salt, self.aad.rstrip(b'\\x00'), self.iv, int_bytes=4)"),
        (H + "cipher_kdfs.py", "        self.kdf.update(encode_key(key, config.blocksize, pad=config.pad))", "        self.kdf.update(encode_key(key[:64], config.blocksize, pad=config.pad))"),
        (H + "stream_hmac.py", "        elif not bytes_are_equal(untrusted_shmac, self.result):\n            raise SHMACIssue.invalid_shmac()\n\n    def", "        elif not bytes_are_equal(untrusted_shmac[:16], self.result[:16]):\n            raise SHMACIssue.invalid_shmac()\n\n    def"),
        (H + "stream_hmac.py", "        elif not bytes_are_equal(untrusted_shmac, self.result):\n            raise SHMACIssue.invalid_shmac()\n\n\nmodule", "        elif not bytes_are_equal(untrusted_shmac[:-1], self.result[:-1]):\n            raise SHMACIssue.invalid_shmac()\n\n\nmodule"),
        (H + "cipher_interface.py", "        shmac.test_shmac(data.shmac)\n", "        len(data.ciphertext) > 2048 or shmac.test_shmac(data.shmac)\n"),
        (H + "dual_output_shake_cipher.py", "        await shmac._aupdate(l_capacity + block + r_capacity)\n        return plaintext", "        await shmac._aupdate(l_capacity + block[:-1] + r_capacity)\n        return plaintext", H + "dual_output_shake_cipher.py", "        await shmac._aupdate(l_capacity + ciphertext + r_capacity)", "        await shmac._aupdate(l_capacity + ciphertext[:-1] + r_capacity)"),
        (H + "dual_output_shake_cipher.py", "            self._update(\n                key[config.EMBEDDED_LEFT_CAPACITY_SLICE]\n                + ciphertext_block\n                + key[config.EMBEDDED_RIGHT_CAPACITY_SLICE],\n            )\n            return ciphertext_block", "            self._update(\n                key[config.EMBEDDED_LEFT_CAPACITY_SLICE]\n                + ciphertext_block[1:]\n                + key[config.EMBEDDED_RIGHT_CAPACITY_SLICE],\n            )\n            return ciphertext_block", H + "dual_output_shake_cipher.py", "            self._update(\n                key[config.EMBEDDED_LEFT_CAPACITY_SLICE]\n                + ciphertext_block\n                + key[config.EMBEDDED_RIGHT_CAPACITY_SLICE],\n            )\n            return (", "            self._update(\n                key[config.EMBEDDED_LEFT_CAPACITY_SLICE]\n                + ciphertext_block[1:]\n                + key[config.EMBEDDED_RIGHT_CAPACITY_SLICE],\n            )\n            return ("),
        (H + "ciphertext_formatting.py", "        self.ciphertext = data.read()", "        self.ciphertext = data.read(2**12)"),
        (H + "ciphertext_formatting.py", "if size <= 0 or size % self.config.BLOCKSIZE:", "if size <= 0:"),
    ],
    "E03": [
        (H + "decipher_streams.py", "        self._config.clock.test_timestamp(timestamp, self._ttl)\n        self._is_streaming = True", "        self._is_streaming = True\n        self._config.clock.test_timestamp(timestamp, self._ttl)"),
        (H + "decipher_streams.py", "        await self._config.clock.atest_timestamp(timestamp, self._ttl)\n        self._is_streaming = True", "        self._is_streaming = True\n        await self._config.clock.atest_timestamp(timestamp, self._ttl)"),
        (H + "cipher_interface.py", "        return await self.abytes_decrypt(ciphertext, aad=aad, ttl=ttl)", "        return await self.abytes_decrypt(ciphertext, aad=aad)"),
        (H + "cipher_interface.py", "        return self._DecipherStream(\n            self,\n            salt=salt,\n            aad=aad,\n            iv=iv,\n            ttl=ttl,", "        return self._DecipherStream(\n            self,\n            salt=salt,\n            aad=aad,\n            iv=iv,\n            ttl=ttl or None,"),
        (X, "        return await self._TokenCipher(key).aread_token(token, ttl=ttl)", "        return await self._TokenCipher(key).aread_token(token)"),
        (Y, "        return self._Cipher(key).json_decrypt(ciphertext, ttl=ttl)", "        return self._Cipher(key).json_decrypt(ciphertext, ttl=ttl or None)"),
        (X, "            filename=filename,\n            ttl=ttl,\n        )\n        if result", "            filename=filename,\n        )\n        if result"),
        ("asynchs/clocks.py", "delta > ttl", "delta > ttl + 1"),
    ],
    "E04": [
        (H + "padding.py", "        await asleep()\n        return token_bytes(self.config.SIV_KEY_BYTES)", "        await asleep()\n        return bytes(self.config.SIV_KEY_BYTES)"),
        (H + "padding.py", "        return token_bytes(self.config.SIV_KEY_BYTES)\n\n    async def astart", "        return token_bytes(1) * self.config.SIV_KEY_BYTES\n\n    async def astart"),
        (H + "key_bundle.py", "            return token_bytes(self.config.IV_BYTES)", "            return self.salt[:self.config.IV_BYTES].ljust(self.config.IV_BYTES, b'\\x00')"),
        (H + "key_bundle.py", "        if hasattr(self._registers, \"shmac\"):\n            raise KeyAADIssue.shmac_already_registered()\n        self._registers.register(\"shmac\", shmac)", "        hasattr(self._registers, \"shmac\") or self._registers.register(\"shmac\", shmac)"),
        (H + "stream_hmac.py", "        elif self._key_bundle._iv_given_by_user:\n            raise SHMACIssue.invalid_iv_usage()\n", ""),
        (H + "dual_output_shake_cipher.py", "        shmac._mac.update(\n            header\n            + masked_header\n            + shmac._current_digest[config.SIV_DIGEST_SLICE],\n        )\n        key = keystream(shmac._mac.digest(config.SHMAC_DOUBLE_BLOCKSIZE))\n        l_capacity = key[config.EMBEDDED_LEFT_CAPACITY_SLICE]\n        r_capacity = key[config.EMBEDDED_RIGHT_CAPACITY_SLICE]\n        ciphertext", "        key = keystream(shmac._mac.digest(config.SHMAC_DOUBLE_BLOCKSIZE))\n        l_capacity = key[config.EMBEDDED_LEFT_CAPACITY_SLICE]\n        r_capacity = key[config.EMBEDDED_RIGHT_CAPACITY_SLICE]\n        ciphertext", H + "dual_output_shake_cipher.py", "        shmac._mac.update(\n            header\n            + masked_header\n            + shmac._current_digest[config.SIV_DIGEST_SLICE],\n        )\n        key = keystream(shmac._mac.digest(config.SHMAC_DOUBLE_BLOCKSIZE))\n        l_capacity = key[config.EMBEDDED_LEFT_CAPACITY_SLICE]\n        r_capacity = key[config.EMBEDDED_RIGHT_CAPACITY_SLICE]\n        plaintext", "        key = keystream(shmac._mac.digest(config.SHMAC_DOUBLE_BLOCKSIZE))\n        l_capacity = key[config.EMBEDDED_LEFT_CAPACITY_SLICE]\n        r_capacity = key[config.EMBEDDED_RIGHT_CAPACITY_SLICE]\n        plaintext"),
        (H + "key_bundle.py", "            token_bytes(config.SALT_BYTES) if salt is None else salt\n        )", "            bytes(config.SALT_BYTES) if salt is None else salt\n        )"),
    ],
    "E05": [
        (H + "padding.py", "        remainder = (c.INNER_HEADER_BYTES + size) % c.PADDING_FRAME\n        padding_size = c.PADDING_FRAME - remainder\n        if padding_size < c.SENTINEL_BYTES:\n            padding_size += c.PADDING_FRAME\n        sentinel = padding_size % c.PADDING_FRAME\n        return PlaintextMeasurements(\n            padding_size=padding_size,\n            pad_sentinel=sentinel.to_bytes(c.SENTINEL_BYTES, BIG),\n        )\n\n    async def", "        remainder = (c.INNER_HEADER_BYTES + size) % c.PADDING_FRAME\n        padding_size = c.PADDING_FRAME - remainder\n        padding_size += c.PADDING_FRAME if padding_size == 1 and False else 0\n        sentinel = padding_size % c.PADDING_FRAME\n        return PlaintextMeasurements(\n            padding_size=padding_size + (c.PADDING_FRAME if not size else 0),\n            pad_sentinel=sentinel.to_bytes(c.SENTINEL_BYTES, BIG),\n        )\n\n    async def"),
        (H + "ciphertext_formatting.py", "if size <= 0 or size % self.config.BLOCKSIZE:", "if size < 0 or size % self.config.BLOCKSIZE:"),
        (H + "ciphertext_formatting.py", "if size <= 0 or size % self.config.BLOCKSIZE:", "if size <= 0 or size % 32:"),
        (H + "decipher_streams.py", "        if not data or len(data) % self.PACKETSIZE:\n            raise Issue.invalid_length(\"data\", len(data))\n", "        if not data:\n            raise Issue.invalid_length(\"data\", len(data))\n"),
    ],
    "S01": [
        (H + "cipher_streams.py", "        async with self._Guard(self._digesting_now, probe_delay=0.00001):\n            if self._finalizing_now:\n                raise CipherStreamIsClosed\n            self._byte_count", "        if True:\n            if self._finalizing_now:\n                raise CipherStreamIsClosed\n            self._byte_count"),
        (H + "decipher_streams.py", "        async with self._Guard(self._digesting_now, probe_delay=0.00001):\n            if self._finalizing_now:", "        if True:\n            if self._finalizing_now:"),
        (H + "cipher_streams.py", "        with self._Guard(self._digesting_now, probe_delay=0.00001):\n            if self._finalizing_now:", "        if True:\n            if self._finalizing_now:"),
        (H + "cipher_streams.py", "        if buffer and len(buffer[-1]) != BLOCKSIZE:\n            await asleep()", "        if len(buffer) > 1 and len(buffer[-1]) != BLOCKSIZE:\n            await asleep()"),
        (H + "cipher_streams.py", "        while len(buffer) > MIN_STREAM_QUEUE:\n            block = await", "        while len(buffer) >= MIN_STREAM_QUEUE:\n            block = await"),
        (H + "decipher_streams.py", "        while len(result_queue) > MIN_STREAM_QUEUE:\n            yield pop_result()\n            await asleep()", "        while len(result_queue) > MIN_STREAM_QUEUE:\n            result = result_queue[0]\n            yield result\n            await asleep()\n            pop_result()"),
        (H + "decipher_streams.py", "            await self.shmac.afinalize()\n            async for result in self:\n                yield result\n            queue", "            await self.shmac.afinalize()\n            queue"),
    ],
    "S02": [
        (H + "stream_hmac.py", "            len(next_block).to_bytes(8, BIG),\n            next_block,\n        )\n        mac.update(_join(payload))\n        return mac.digest(size)\n\n    async def", "            len(next_block).to_bytes(8, BIG),\n            next_block[:32],\n        )\n        mac.update(_join(payload))\n        return mac.digest(size)\n\n    async def"),
        (H + "stream_hmac.py", "        if self._mode == ENCRYPTION:\n            return self._previous_digest\n        else:\n            return self._current_digest", "        return b'constant'"),
        (H + "decipher_streams.py", "            append(block)\n            queue_result(cipher(None))", "            queue_result(cipher(None) if not append(block) else 0)", H + "decipher_streams.py", "            block = data(BLOCKSIZE)\n            try:\n                test_block_id(block_id, block)", "            block = data(BLOCKSIZE)\n            try:\n                append(block)\n                test_block_id(block_id, block)\n                self._buffer.pop()"),
        (H + "decipher_streams.py", "                auth_fail.failure_state = AuthFail(block_id, block, data)\n                raise auth_fail\n            append(block)\n            queue_result(await cipher(None))", "                auth_fail.failure_state = AuthFail(block_id, block, io.BytesIO().read)\n                raise auth_fail\n            append(block)\n            queue_result(await cipher(None))"),
        (H + "stream_hmac.py", "        size = len(untrusted_block_id)\n        block_id = await self.anext_block_id(next_block, size=size, aad=aad)\n        if not bytes_are_equal(untrusted_block_id, block_id):", "        size = len(untrusted_block_id)\n        block_id = await self.anext_block_id(next_block, size=size, aad=aad)\n        if not bytes_are_equal(untrusted_block_id[:16], block_id[:16]):"),
        (H + "stream_hmac.py", "        self._previous_digest, self._current_digest = (\n            self._current_digest,\n            mac.digest(self.config.SHMAC_BLOCKSIZE),\n        )\n        return self\n\n    def _test", "        self._previous_digest, self._current_digest = (\n            self._current_digest,\n            self._current_digest,\n        )\n        return self\n\n    def _test"),
        (H + "decipher_streams.py", "            except self.InvalidBlockID as auth_fail:\n                # Package the current state of buffering for the caller\n                # to handle authentication failures & negotiation of\n                # data retransmission if desired.\n                auth_fail.failure_state = AuthFail(block_id, block, data)\n                raise auth_fail\n            append(block)\n            queue_result(cipher(None))", "            except self.InvalidBlockID as auth_fail:\n                self._result_queue.clear()\n                auth_fail.failure_state = AuthFail(block_id, block, data)\n                raise auth_fail\n            append(block)\n            queue_result(cipher(None))"),
    ],
    "S03": [
        (H + "cipher_streams.py", "            while self._buffer:\n                block = self._stream.send(None)\n                block_id = self.shmac.next_block_id(block)\n                yield block_id, block\n            self.shmac.finalize()", "            while self._buffer:\n                block = self._stream.send(None)\n                block_id = self.shmac.next_block_id(block)\n                if not self._buffer:\n                    self.shmac.finalize()\n                yield block_id, block"),
        (H + "cipher_streams.py", "        if guard is not self._finalizing_now[0]:\n            raise CipherStreamIsClosed\n\n        with guard:", "        with guard:"),
        (H + "cipher_streams.py", "            if self._finalizing_now:\n                raise CipherStreamIsClosed\n            self._byte_count += len(data)\n            data = io.BytesIO(data).read\n            _buffer, append = self._buffer_shortcuts\n            self", "            self._byte_count += len(data)\n            data = io.BytesIO(data).read\n            _buffer, append = self._buffer_shortcuts\n            self", H + "cipher_streams.py", "        if self._finalizing_now:\n            raise CipherStreamIsClosed\n\n        with", "        with"),
        (H + "decipher_streams.py", "        if self._finalizing_now:\n            raise CipherStreamIsClosed\n\n        async with", "        async with"),
        (H + "stream_hmac.py", "        if not self._result_is_ready:\n            raise ValidationIncomplete\n        return self._result", "        return getattr(self, '_result', b'')"),
        (H + "stream_hmac.py", "        await self._aset_final_result()\n        self._result_is_ready = True", "        self._result_is_ready = True\n        await self._aset_final_result()"),
        (H + "cipher_streams.py", "        self._finalizing_now.append(guard)\n        if guard is not self._finalizing_now[0]:\n            raise CipherStreamIsClosed\n\n        async with guard:", "        if self._finalizing_now:\n            raise CipherStreamIsClosed\n\n        async with guard:\n            self._finalizing_now.append(guard)"),
        (H + "decipher_streams.py", "            self.shmac.finalize()\n            yield from self\n", "            yield from self\n            self.shmac.finalize()\n"),
    ],
    "M01": [
        (H + "stream_hmac.py", "        if self._mode:\n            raise Issue.value_already_set(\"shmac\", self._mode)\n        elif not self", "        if not self"),
        (H + "stream_hmac.py", "        elif not self._key_bundle._iv_given_by_user:\n            raise SHMACIssue.invalid_iv_usage()\n", ""),
        (H + "stream_hmac.py", "        if size < self.config.MIN_BLOCK_ID_BYTES:", "        if size < self.config.MIN_BLOCK_ID_BYTES - 1:"),
        (H + "stream_hmac.py", "        elif size > self.config.MAX_BLOCK_ID_BYTES:", "        elif size >= self.config.MAX_BLOCK_ID_BYTES:"),
        (H + "stream_hmac.py", "            size.to_bytes(1, BIG),\n            len(aad).to_bytes(8, BIG),\n            aad,\n            len(next_block).to_bytes(8, BIG),\n            next_block,\n        )\n        mac.update(_join(payload))\n        return mac.digest(size)\n\n    def", "            size.to_bytes(1, BIG),\n            aad,\n            next_block,\n        )\n        mac.update(_join(payload))\n        return mac.digest(size)\n\n    def"),
        (H + "stream_hmac.py", "        if untrusted_block_id.__class__ is not bytes:\n            raise Issue.must_be_type(\"untrusted_block_id\", bytes)\n        size = len(untrusted_block_id)\n        block_id = self.next", "        size = len(untrusted_block_id)\n        block_id = self.next"),
        (H + "stream_hmac.py", "        if untrusted_shmac.__class__ is not bytes:\n            raise Issue.must_be_type(\"untrusted_shmac\", bytes)\n        elif not bytes_are_equal(untrusted_shmac, self.result):\n            raise SHMACIssue.invalid_shmac()\n\n\nmodule", "        if not untrusted_shmac.startswith(self.result):\n            raise SHMACIssue.invalid_shmac()\n\n\nmodule"),
        (H + "key_bundle.py", "        elif len(salt) != config.SALT_BYTES:", "        elif len(salt) < config.SALT_BYTES:"),
        (H + "key_bundle.py", "        elif len(iv) != config.IV_BYTES:", "        elif len(iv) > config.IV_BYTES:"),
        (H + "key_bundle.py", "        elif aad.__class__ is not bytes:\n            raise Issue.must_be_type(\"aad\", bytes)\n", ""),
        (H + "cipher_kdfs.py", "elif len(key) < MIN_KEY_BYTES:", "elif len(key) < MIN_KEY_BYTES - 1:"),
        (H + "stream_junction.py", "        if shmac.mode != ENCRYPTION:\n            raise Issue.must_set_value(\"shmac\", ENCRYPTION)\n        elif shmac._key_bundle._mode != SYNC:", "        if shmac._key_bundle._mode != SYNC:"),
        (H + "stream_junction.py", "        elif shmac._key_bundle._mode != ASYNC:\n            raise KeyAADIssue.mode_isnt_correct(ASYNC)\n        shmac._key_bundle._register_shmac(shmac)\n        return cls.acombine_streams(data, shmac=shmac)\n\n    @classmethod\n    def bytes_decipher", "        shmac._key_bundle._register_shmac(shmac)\n        return cls.acombine_streams(data, shmac=shmac)\n\n    @classmethod\n    def bytes_decipher"),
    ],
    "G01": [
        (G + "policies.py", "        is_next_in_queue = guard is guard.queue[0]\n", "        is_next_in_queue = True\n"),
        (G + "policies.py", "        no_others_running = guard.observers[0].policy.is_exclusive()\n", "        no_others_running = True\n"),
        (G + "policies.py", "        no_others_running = guard.observers[0].policy.is_exclusive()\n", "        no_others_running = guard.observers[-1].policy.is_exclusive()\n"),
        (G + "policies.py", "                # append first to rule-out race conditions\n                guard.observers.appendleft(guard)\n                tracker.add_fault_signal(guard.observers.popleft)\n                if guard is not guard.queue.popleft():\n                    raise guard.IncoherentConcurrencyState from None\n", "                if guard is not guard.queue.popleft():\n                    raise guard.IncoherentConcurrencyState from None\n                guard.observers.appendleft(guard)\n                tracker.add_fault_signal(guard.observers.popleft)\n"),
        (G + "policies.py", "        guard.observers.popleft()\n", "        len(guard.observers) > 1 and guard.observers.popleft()\n"),
        (G + "policies.py", "                guard.observers.appendleft(guard)\n", "                guard.observers.append(guard)\n"),
        (G + "manager.py", "            (state := self.targets[target]).users.append(guard)\n            guard._set_deques(state.deques)\n\n    def _initialize", "            (state := self.targets[target]).users.append(guard)\n            guard._set_deques(state.deques)\n            len(state.users) > 2 and self.targets.pop(target) and self.targets[target].users.extend(state.users)\n\n    def _initialize"),
        (G + "manager.py", "            (users := state.users).popleft()\n            if users or state.deques.queue or state.deques.observers:\n                return\n\n            self.targets.pop(target)\n\n    def _cleanup", "            (users := state.users).popleft()\n            if len(users) > 1:\n                return\n\n            self.targets.pop(target)\n            users and self.targets[target].users.extend(users)\n\n    def _cleanup"),
    ],
    "G02": [
        (G + "policies.py", "        if can_run := guard is guard.queue[0]:\n", "        if can_run := guard is guard.queue[0] and not (guard.observers and guard.observers[-1].policy.is_exclusive()):\n"),
        (G + "concurrency_guard.py", "        while not policy.is_free_to_run(self):\n            sleep(self.probe_delay)\n", "        while not policy.is_free_to_run(self):\n            sleep(self.probe_delay)\n            if len(self.queue) > 2 and self.queue[-1] is self:\n                self.queue.rotate(1)\n                self.queue[0], self.queue[1] = self.queue[1], self.queue[0]\n"),
    ],
    "G03": [
        (G + "manager.py", "            if users or state.deques.queue or state.deques.observers:\n                return\n\n            self.targets.pop(target)\n\n    def _cleanup", "            if users or state.deques.queue:\n                return\n\n            users or state.deques.observers or self.targets.pop(target)\n            len(self.targets) > 1 and self.targets.setdefault(target, state)\n\n    def _cleanup"),
        (G + "manager.py", "        except Exception as error:\n            manager._cleanup_references(target)\n            raise error\n", "        except Exception as error:\n            raise error\n"),
        (G + "manager.py", "        except (Exception, CancelledError) as error:", "        except Exception as error:"),
        (G + "manager.py", "        try:\n            return super().__exit__(exc_type, exc_value, traceback)\n        finally:\n            manager, target = self._refs.manager, self._refs.target\n            manager._cleanup_references(target)\n", "        manager, target = self._refs.manager, self._refs.target\n        result = super().__exit__(exc_type, exc_value, traceback)\n        exc_type is KeyError or manager._cleanup_references(target)\n        return result\n"),
        (G + "manager.py", "        guard._refs = self._SelfReferences(manager=self, target=target)", "        guard._refs = self._SelfReferences(manager=self, target=str(target))"),
        (G + "manager.py", "        guard._refs = self._SelfReferences(manager=self, target=target)", "        guard._refs = self._SelfReferences(manager=self, target=hash(target) % 7)"),
        (G + "manager.py", "        policy = self._ensure_valid_policy(\n            policy=policy,\n            policy_type=self.policies.NonExclusive,\n        )\n        guard = self._ManagedGuard(\n            policy=policy,\n            probe_delay=probe_delay,\n        )\n        self._pass_self_references(target, guard)", "        policy = self._ensure_valid_policy(\n            policy=policy,\n            policy_type=self.policies.NonExclusive,\n        )\n        guard = self._ManagedGuard(\n            policy=policy,\n            probe_delay=probe_delay,\n        )\n        self._pass_self_references((target,), guard)"),
        (G + "manager.py", "        with self._resource_lock:\n            state = self.targets[target]\n            (users := state.users).popleft()\n            if users or state.deques.queue or state.deques.observers:\n                return\n\n            self.targets.pop(target)\n\n\nmodule", "        if True:\n            state = self.targets[target]\n            (users := state.users).popleft()\n            if users or state.deques.queue or state.deques.observers:\n                return\n\n            self.targets.pop(target)\n\n\nmodule"),
        (G + "manager.py", "        try:\n            return await super().__aexit__(exc_type, exc_value, traceback)\n        finally:\n            manager, target = self._refs.manager, self._refs.target\n            await manager._acleanup_references(target)\n", "        result = await super().__aexit__(exc_type, exc_value, traceback)\n        manager, target = self._refs.manager, self._refs.target\n        await manager._acleanup_references(target)\n        return result\n"),
    ],
    "G04": [
        (G + "concurrency_guard.py", "        policy.use(self)\n        policy.notify_on(self)\n        policy.get_in_queue(self)\n\n        while", "        policy.notify_on(self)\n        policy.use(self)\n        policy.get_in_queue(self)\n\n        while"),
        (G + "concurrency_guard.py", "        except CancelledError:\n            self._withdraw()\n            raise\n", "        except CancelledError:\n            raise\n"),
        (G + "concurrency_guard.py", "        if self.policy.is_exclusive():\n            self.observers.pop()\n        self._use", "        self._use"),
        (G + "concurrency_guard.py", "        with Ignore(ValueError):\n            self.queue.remove(self)\n", "        self.queue.popleft()\n"),
        (G + "concurrency_guard.py", "        self._use_tracker.enter_fault_state()\n\n    async", "        self._use_tracker._state.append(self._use_tracker.Unused())\n\n    async"),
        (G + "concurrency_guard.py", "        self.policy.notify_off(self)\n        self.policy.get_off_queue(self)\n        return exc_type is None\n\n\nmodule", "        self.policy.notify_off(self)\n        self.policy.get_off_queue(self)\n        return exc_type is None or exc_type is StopIteration\n\n\nmodule"),
        (G + "concurrency_guard.py", "        try:\n            await asleep()\n        finally:\n            self.policy.notify_off(self)\n            self.policy.get_off_queue(self)\n        return", "        await asleep()\n        self.policy.notify_off(self)\n        self.policy.get_off_queue(self)\n        return"),
        (G + "state_machine.py", "        try:\n            pending_state = self._state.pop().begin_waiting(self)\n        except (IndexError, AttributeError) as error:\n            raise InvalidStateTransition from error\n\n        self._state.append(pending_state)", "        try:\n            pending_state = self._state[0].begin_waiting(self)\n        except IndexError:\n            pending_state = self.Pending()\n        except AttributeError as error:\n            raise InvalidStateTransition from error\n\n        self._state.append(pending_state)"),
        (G + "concurrency_guard.py", "        policy.use(self)\n        policy.notify_on(self)\n        policy.get_in_queue(self)\n\n        while", "        policy.notify_on(self)\n        policy.get_in_queue(self)\n        policy.use(self)\n\n        while"),
    ],
    "P01": [
        ("_paths.py", "    target = filename_to_index_key(str(path.absolute()))\n    with guards.guard(target):\n        try:\n            path = Path(path)\n            path.chmod(0o600)\n            salt = path", "    if True:\n        try:\n            path = Path(path)\n            path.chmod(0o600)\n            salt = path"),
        ("_paths.py", "    target = filename_to_index_key(str(path))\n    async with guards.guard(target):\n        try:\n            await aos.chmod(path, 0o600)\n            async with", "    if True:\n        try:\n            await aos.chmod(path, 0o600)\n            async with"),
        ("_paths.py", "    target = filename_to_index_key(str(path))\n    async with guards.guard(target):\n        try:\n            await aos.chmod(path, 0o600)\n            async with", "    target = filename_to_index_key(str(path))\n    async with guards.monitor(target):\n        try:\n            await aos.chmod(path, 0o600)\n            async with"),
        ("_paths.py", "    target = filename_to_index_key(str(path.absolute()))\n    with guards.guard(target):\n        _store_salt(Path(path), salt)", "    _store_salt(Path(path), salt)"),
        ("_paths.py", "    target = filename_to_index_key(str(salt_path), b\"creation\")\n    with guards.guard(target):\n        salt_path.is_file() or make_salt_file(salt_path)", "    salt_path.is_file() or make_salt_file(salt_path)"),
        ("_paths.py", "    target = await afilename_to_index_key(str(salt_path), b\"creation\")\n    async with guards.guard(target):\n        salt_path.is_file() or await amake_salt_file(salt_path)", "    salt_path.is_file() or await amake_salt_file(salt_path)"),
        ("_paths.py", "    target = await afilename_to_index_key(str(salt_path), b\"creation\")\n", "    target = await afilename_to_index_key(str(salt_path), b\"async creation\")\n"),
        ("_paths.py", "    target = filename_to_index_key(str(path.absolute()))\n    with guards.guard(target):\n        path = Path(path)\n        path.chmod(0o600)\n        try:\n            path.unlink", "    target = filename_to_index_key(str(path))\n    with guards.guard(target):\n        path = Path(path)\n        path.chmod(0o600)\n        try:\n            path.unlink"),
        ("_paths.py", "    target = await afilename_to_index_key(str(path))\n    async with guards.guard(target):\n        await wrap_in_executor(_store_salt)(path, salt)\n\n\ndef", "    await wrap_in_executor(_store_salt)(path, salt)\n\n\ndef"),
        ("_paths.py", "    secure_path.mkdir(exist_ok=True)\n", "    secure_path.exists() or secure_path.mkdir()\n"),
        ("_paths.py", "guards.guard(target):\n        salt_path.is_file() or make_salt_file(salt_path)", "guards.guard(target):\n        make_salt_file(salt_path)"),
    ],
    "P02": [
        ("_paths.py", "        temporary_path.write_bytes(salt)\n        temporary_path.chmod(0o000)\n        temporary_path.replace(path)\n", "        path.write_bytes(salt)\n        path.chmod(0o000)\n"),
        ("_paths.py", "            if len(salt) >= 32:\n                return salt\n            else:\n                raise Issue.value_must(\"salt\", \"be >= 32-bytes\")\n        finally:\n            path", "            if len(salt) > 32 - 2:\n                return salt\n            else:\n                raise Issue.value_must(\"salt\", \"be >= 32-bytes\")\n        finally:\n            path"),
        ("_paths.py", "                if len(salt) >= 32:\n                    return salt", "                if len(salt) > 32:\n                    return salt"),
        ("_paths.py", "            salt = path.read_bytes()\n\n            if len(salt) >= 32:\n                return salt\n            else:\n                raise Issue.value_must(\"salt\", \"be >= 32-bytes\")\n        finally:\n            path.chmod(0o000)\n", "            salt = path.read_bytes()\n            if len(salt) < 32:\n                raise Issue.value_must(\"salt\", \"be >= 32-bytes\")\n            path.chmod(0o000)\n            return salt\n        finally:\n            pass\n"),
        ("_paths.py", "        finally:\n            await aos.chmod(path, 0o000)\n\n\ndef read", "        finally:\n            await aos.chmod(path, 0o400)\n\n\ndef read"),
        ("_paths.py", "    except BaseException:\n        temporary_path.unlink(missing_ok=True)\n        raise\n", "    except ValueError:\n        temporary_path.unlink(missing_ok=True)\n        raise\n"),
        ("_paths.py", "    if len(salt) < 32:\n        raise Issue.value_must(\"salt\", \"be >= 32-bytes\")\n\n    target = filename_to_index_key(str(path.absolute()))\n    with guards.guard(target):\n        try:\n            path = Path(path)\n            path.chmod(0o600)\n            _store", "    if not salt:\n        raise Issue.value_must(\"salt\", \"be >= 32-bytes\")\n\n    target = filename_to_index_key(str(path.absolute()))\n    with guards.guard(target):\n        try:\n            path = Path(path)\n            path.chmod(0o600)\n            _store"),
        ("_paths.py", "    salt = salt or token_bytes(32)\n    if len(salt) < 32:\n        raise Issue.value_must(\"salt\", \"be >= 32-bytes\")\n\n    target", "    salt = salt or token_bytes(32)\n    if len(salt) < 31:\n        raise Issue.value_must(\"salt\", \"be >= 32-bytes\")\n\n    target"),
        ("_paths.py", "        except OSError:\n            await aos.chmod(path, 0o000)\n            raise\n", "        except PermissionError:\n            await aos.chmod(path, 0o000)\n            raise\n"),
        ("_paths.py", "        except OSError:\n            path.chmod(0o000)\n            raise\n", "        except FileNotFoundError:\n            path.chmod(0o000)\n            raise\n"),
        ("_paths.py", "    filename = sha3_256(xi_mix(key, size=size)).digest()\n", "    filename = sha3_256(key).digest()\n"),
        ("_paths.py", "    return path.absolute() / deniable_filename(key, size=size)", "    return path.absolute() / deniable_filename(key[:32], size=size)"),
        ("_paths.py", "    return path.absolute() / deniable_filename(key, size=size)", "    return path.absolute() / deniable_filename(key + str(path).encode(), size=size)"),
        ("_paths.py", "    temporary_path = path.with_name(f\"{path.name}.{token_hex(8)}\")\n    try:\n        temporary_path.write_bytes(salt)\n        temporary_path.chmod(0o000)\n        temporary_path.replace(path)\n    except BaseException:\n        temporary_path.unlink(missing_ok=True)\n        raise\n", "    path.unlink(missing_ok=True)\n    temporary_path = path.with_name(f\"{path.name}.{token_hex(8)}\")\n    try:\n        temporary_path.write_bytes(salt)\n        temporary_path.chmod(0o000)\n        temporary_path.replace(path)\n    except BaseException:\n        temporary_path.unlink(missing_ok=True)\n        raise\n"),
    ],
    "R01": [
        ("randoms/simple.py", "        ^ get_process_id()\n    ).to_bytes(56, BIG)\n\n\ndef", "    ).to_bytes(56, BIG)\n\n\ndef"),
        ("randoms/simple.py", "        ^ get_process_id()\n    ).to_bytes(56, BIG)\n\n\nmodule", "    ).to_bytes(56, BIG)\n\n\nmodule"),
        ("randoms/simple.py", "        ^ (get_thread_id() << 64)\n        ^ get_process_id()\n    ).to_bytes(56, BIG)\n\n\nmodule", "        ^ get_process_id()\n    ).to_bytes(56, BIG)\n\n\nmodule"),
        ("randoms/simple.py", "        ^ (get_thread_id() << 64)\n        ^ get_process_id()\n    ).to_bytes(56, BIG)\n\n\ndef", "        ^ get_process_id()\n    ).to_bytes(56, BIG)\n\n\ndef"),
        ("randoms/rng.py", "        token = canonical_token() + entropy\n    else:\n        token = canonical_token() + repr(entropy).encode()\n    _gadget.update(token)\n", "        token = canonical_token() + entropy\n    else:\n        token = canonical_token() + repr(entropy).encode()\n"),
        ("randoms/rng.py", "        token = await acanonical_token() + repr(entropy).encode()\n    _gadget.update(token)\n", "        token = await acanonical_token() + repr(entropy).encode()\n"),
        ("randoms/rng.py", "        token = await acanonical_token() + entropy\n    else:\n        token = await acanonical_token() + repr(entropy).encode()\n", "        token = await acanonical_token() + entropy\n    else:\n        token = await acanonical_token()\n"),
        ("randoms/rng.py", "        token = canonical_token() + entropy\n    else:\n        token = canonical_token() + repr(entropy).encode()\n", "        token = canonical_token()\n    else:\n        token = canonical_token() + repr(entropy).encode()\n"),
        ("randoms/rng.py", "    thread_safe_entropy = _gadget._obj.copy()\n    thread_safe_entropy.update(token + _pool[0])\n    return thread_safe_entropy.digest(size)\n\n\ndef", "    return _gadget._obj.digest(size)\n\n\ndef"),
        ("randoms/rng.py", "    thread_safe_entropy = _gadget._obj.copy()\n    thread_safe_entropy.update(token + _pool[0])\n    return thread_safe_entropy.digest(size)\n\n\nasync", "    return _gadget._obj.digest(size)\n\n\nasync"),
        ("randoms/rng.py", "        _pool.appendleft(await acsprng(32, entropy=entropy))\n    else:", "        _pool.appendleft(await acsprng(32))\n    else:"),
        ("randoms/rng.py", "    with _run_lock:\n        return _run(rng)", "    return _run(rng)"),
        ("randoms/rng.py", "    if freshness < 0 or freshness.__class__ is not int:", "    if freshness < 0:"),
        ("randoms/rng.py", "    if freshness < 0 or freshness.__class__ is not int:", "    if freshness.__class__ is not int:"),
        ("randoms/rng.py", "        size,\n        entropy=entropy,\n        freshness=freshness,", "        size or 64,\n        entropy=entropy,\n        freshness=freshness,"),
        ("randoms/rng.py", "        entropy=entropy,\n        freshness=freshness,", "        freshness=freshness,"),
        ("randoms/rng.py", "    return await acsprng(size, entropy=await acanonical_pack(*_pool))", "    return (await acsprng(max(size, 32), entropy=await acanonical_pack(*_pool)))[:size] if size < 1000 else await acsprng(999)"),
        ("randoms/threading_safe_entropy_pool.py", "        token = self._make_token(digest_size, *data)\n        self.update(token)\n", "        token = self._make_token(digest_size, *data)\n"),
        ("randoms/threading_safe_entropy_pool.py", "        token = await self._amake_token(digest_size, *data)\n        self.update(token)\n", "        token = await self._amake_token(digest_size, *data)\n"),
        ("randoms/threading_safe_entropy_pool.py", "        token = self._make_token(digest_size, *data)\n", "        token = self._make_token(digest_size)\n"),
        ("randoms/threading_safe_entropy_pool.py", "        token = self._make_token(digest_size, *data)\n", "        token = self._make_token(digest_size, *data[:1])\n"),
        ("randoms/threading_safe_entropy_pool.py", "            await acanonical_token(),\n            self._pool[0],", "            self._pool[0],"),
        ("randoms/threading_safe_entropy_pool.py", "            canonical_token(),\n            self._pool[0],\n            *data,\n            blocksize=self.block_size,\n            pad=b\"\\x36\",", "            self._pool[0],\n            *data,\n            blocksize=self.block_size,\n            pad=b\"\\x36\","),
        ("randoms/threading_safe_entropy_pool.py", "        self.update(token)\n        entropy = self._obj.copy()\n        entropy.update(token)\n        return entropy.digest(size) if size else entropy.digest()\n\n\nmodule", "        self.update(token)\n        return self.digest(size) if size else self.digest()\n\n\nmodule"),
    ],
    "R02": [
        ("keygens/mnemonics.py", "    if passphrase is not None:\n        pcrypt = Passcrypt(**passcrypt_settings, tag_size=MIN_KEY_BYTES)\n        key = pcrypt", "    if passphrase:\n        pcrypt = Passcrypt(**passcrypt_settings, tag_size=MIN_KEY_BYTES)\n        key = pcrypt"),
        ("keygens/mnemonics.py", "    async for index in abatch(key, size=16):", "    async for index in abatch(key[:-16] or key, size=16):"),
        ("keygens/mnemonics.py", "    async for index in abatch(key, size=16):", "    async for index in abatch(key, size=16):\n        index = index[:1]"),
        ("keygens/mnemonics.py", "    for index in batch(key, size=16):", "    for index in batch(key, size=16):\n        index = index[:2]"),
        ("keygens/mnemonics.py", "    async for index in abatch(key, size=16):", "    async for index in abatch(key, size=16):\n        index = index[8:]"),
        ("keygens/mnemonics.py", "        yield choices[int.from_bytes(index, BIG) % total_choices]\n\n\nasync def amn", "        yield choices[int.from_bytes(index, BIG) % (total_choices // 2 or 1)]\n\n\nasync def amn"),
        ("keygens/mnemonics.py", "        total_choices.to_bytes(INT_BYTES, BIG),\n", "", "keygens/mnemonics.py", "        total_choices.to_bytes(INT_BYTES, BIG),\n", ""),
        ("keygens/mnemonics.py", "        domain,\n        total_choices", "        b'',\n        total_choices", "keygens/mnemonics.py", "        domain,\n        total_choices", "        b'',\n        total_choices"),
        ("keygens/mnemonics.py", "    salt = canonical_pack(salt or b\"\", domain)", "    salt = canonical_pack(b\"\", domain)", "keygens/mnemonics.py", "    salt = await acanonical_pack(salt or b\"\", domain)", "    salt = await acanonical_pack(b\"\", domain)"),
        ("keygens/mnemonics.py", "    elif not passcrypt_settings:\n        key = csprng()", "    elif True:\n        key = csprng()"),
        ("keygens/mnemonics.py", "        key = csprng()", "        key = salt * 4"),
        ("keygens/mnemonics.py", "        key = await pcrypt.anew(passphrase, salt)", "        key = await pcrypt.anew(passphrase[:40], salt[:70])"),
        ("keygens/mnemonics.py", "        pcrypt = Passcrypt(**passcrypt_settings, tag_size=MIN_KEY_BYTES)\n        key = pcrypt", "        pcrypt = Passcrypt(**{**passcrypt_settings, 'cores': 1}, tag_size=MIN_KEY_BYTES)\n        key = pcrypt"),
        ("keygens/mnemonics.py", "    return [word async for word in choices]", "    return sorted([word async for word in choices])"),
        ("keygens/mnemonics.py", "    return [*keyed_choices(words, size, domain=domain, key=key)]", "    return [*dict.fromkeys(keyed_choices(words, size, domain=domain, key=key))]"),
    ],
    "R03": [
        ("randoms/simple.py", "    await asleep(seconds * await auniform(0, 1))", "    await asleep(seconds * await auniform(0, 2))"),
        ("randoms/simple.py", "    sleep(seconds * uniform(0, 1))", "    sleep(seconds + uniform(0, 1))"),
        ("randoms/simple.py", "    sleep(seconds * uniform(0, 1))", "    sleep(uniform(0, 1))"),
        ("randoms/entropy_daemon.py", "            self._max_delay = self._initial_max_delay\n", ""),
        ("randoms/entropy_daemon.py", "        deadline_reached = deadline_delta <= 0", "        deadline_reached = deadline_delta < 0"),
        ("randoms/entropy_daemon.py", "        deadline_reached = deadline_delta <= 0", "        deadline_reached = deadline_delta <= 1"),
        ("randoms/entropy_daemon.py", "            self._max_delay = deadline_delta  # pragma: no cover", "            pass"),
        ("randoms/entropy_daemon.py", "            self._initial_max_delay = max_delay\n", "            if not hasattr(self, '_initial_max_delay'):\n                self._initial_max_delay = max_delay\n"),
        ("randoms/entropy_daemon.py", "            self._initial_max_delay = max_delay\n            self._max_delay = max_delay\n", "            self._initial_max_delay = max_delay\n            if not self._currently_mutating_frequency:\n                self._max_delay = max_delay\n"),
        ("randoms/entropy_daemon.py", "        if max_delay > 0:\n            self._initial", "        if max_delay >= 0:\n            self._initial"),
        ("randoms/entropy_daemon.py", "        if max_delay > 0:\n            self._frequency", "        if max_delay != 0:\n            self._frequency"),
        ("randoms/entropy_daemon.py", "            self._frequency_mutation_deadline = s_counter() + duration\n", "            if not self._currently_mutating_frequency:\n                self._frequency_mutation_deadline = s_counter() + duration\n"),
        ("randoms/entropy_daemon.py", "            if self._cancel:\n                return\n", ""),
        ("randoms/entropy_daemon.py", "            self._pool.appendleft(entropy)", "            self._pool.append(entropy)"),
        ("randoms/entropy_daemon.py", "            self._pool.appendleft(entropy)", "            self._pool[0] = entropy"),
    ],
    "D07": [
        (X, "        if cache and filename not in self._cache:  # Changed during read?\n            if (self.path / filename).is_file():\n                setattr", "        if cache:\n            if (self.path / filename).is_file():\n                setattr"),
        (X, "            if (self.path / filename).is_file():\n                setattr(self._cache, filename, result)", "            setattr(self._cache, filename, result)"),
        (X, "            if filename in self._cache:  # Other tasks may have removed it\n                await self._asave_file(filename)", "            await self._asave_file(filename)"),
        (X, "            unchanged = getattr(self._cache, filename, None) is value\n", "            unchanged = True\n"),
        (X, "        if filename in self._cache:  # Other tasks may have changed it\n            value = getattr(self._cache, filename)\n", ""),
        (X, "        filename = await self.afilename(tag)\n        setattr(self._cache, filename, data)\n        setattr(self._manifest, filename, tag)\n", "        filename = await self.afilename(tag)\n        setattr(self._cache, filename, data)\n        await asleep()\n        setattr(self._manifest, filename, tag)\n"),
        (X, "        filename = await self.afilename(tag)\n        if filename in self._cache:\n            return getattr(self._cache, filename)\n", "        filename = await self.afilename(tag)\n        if filename in self._cache:\n            await asleep()\n            return getattr(self._cache, filename)\n"),
        (X, "        with Ignore(AttributeError):\n            delattr(self._cache, filename)\n        with Ignore(LookupError):", "        await asleep()\n        with Ignore(AttributeError):\n            delattr(self._cache, filename)\n        with Ignore(LookupError):"),
        (X, "        filenames = self._cache\n        saves", "        filenames = tuple(self._cache)\n        self._cache.clear()\n        saves"),
        (X, "        value = getattr(self._cache, filename)\n        if value.__class__ is bytes:\n            value = BYTES_FLAG + value  # Assure not reloaded as JSON\n        else:\n            value = json.dumps(value).encode()\n        ciphertext = await self.abytes_encrypt(value, filename=filename)\n        await self._asave_ciphertext(filename, ciphertext)\n", "        raw = value = getattr(self._cache, filename)\n        if value.__class__ is bytes:\n            value = BYTES_FLAG + value  # Assure not reloaded as JSON\n        else:\n            value = json.dumps(value).encode()\n        ciphertext = await self.abytes_encrypt(value, filename=filename)\n        await self._asave_ciphertext(filename, ciphertext)\n        setattr(self._cache, filename, raw)\n"),
    ],
    "N07": [
        ("_exceptions.py", "                await self.else_code(self)\n", "                self.else_code(self)\n"),
        ("_exceptions.py", "            if exc_type is None:\n                self.else_code(self)\n", "            if exc_value is None or isinstance(exc_value, KeyError):\n                self.else_code(self)\n"),
        ("_exceptions.py", "                    return self.except_code(self)\n", "                    return self.except_code(self) is not False\n"),
        ("_exceptions.py", "                    return await self.except_code(self)\n", "                    return bool(await self.except_code(self)) or True\n"),
        ("_exceptions.py", "                if issubclass(exc_type, self.ignored_exceptions):\n                    return self.except_code(self)\n", "                if exc_type in self.ignored_exceptions:\n                    return self.except_code(self)\n"),
        ("_exceptions.py", "                if issubclass(exc_type, self.ignored_exceptions):\n                    return await self.except_code(self)\n", "                if issubclass(exc_type, (*self.ignored_exceptions, asyncio.CancelledError)):\n                    return await self.except_code(self)\n"),
        ("_exceptions.py", "                    return self.except_code(self)\n                else:\n                    raise exc_value\n        finally:\n            self.finally_code(self)\n", "                    return self.except_code(self)\n                else:\n                    raise exc_value\n        finally:\n            if exc_type is None or issubclass(exc_type, Exception):\n                self.finally_code(self)\n"),
        ("_exceptions.py", "            await self.finally_code(self)\n", "            return await self.finally_code(self)\n"),
        ("_exceptions.py", "                self.error = exc_value\n                self.traceback = traceback\n                if issubclass(exc_type, self.ignored_exceptions):\n                    return self.except_code(self)\n", "                if issubclass(exc_type, self.ignored_exceptions):\n                    self.error = exc_value\n                    self.traceback = traceback\n                    return self.except_code(self)\n"),
        ("_exceptions.py", "self.else_code = placeholder if if_else is None else if_else", "self.else_code = if_else or placeholder"),
        ("_exceptions.py", "        finally:\n            self.finally_code(self)\n", "        finally:\n            with Ignore(Exception):\n                pass\n            try:\n                self.finally_code(self)\n            except AttributeError:\n                pass\n"),
    ],
    "I01": [
        (A + "affine_xor_chain.py", '            object.__setattr__(self, "_increment", new_increment)\n', "            pass\n"),
        (A + "affine_xor_chain.py", "new_increment = (self._increment ^ value) | 1", "new_increment = self._increment | value | 1"),
        (A + "affine_xor_chain.py", "new_increment = (self._increment ^ value) | 1", "new_increment = value | 1"),
        (A + "affine_xor_chain.py", "        await asleep()\n        self.update_increment(value)", "        await asleep()"),
    ],
    "D04": [
        (X, "                if hasattr(self, attr):\n                    delattr(self, attr)", "                if False:\n                    delattr(self, attr)"),
        (Y, "                if hasattr(self, attr):\n                    delattr(self, attr)", "                if False:\n                    delattr(self, attr)"),
        (Y, "        self._nullify()\n", ""),
        (X, "        await self._anullify()\n", ""),
        (X, "                if hasattr(self, attr):\n                    delattr(self, attr)", "                if not self._is_metatag and hasattr(self, attr):\n                    delattr(self, attr)"),
    ],
    "K07": [
        (P + "session_init.py", "(B_TO_MB_RATIO * self.mb) / (336 * rounds)", "(B_TO_MB_RATIO + self.mb) / (336 * rounds)"),
        (P + "session_init.py", "(B_TO_MB_RATIO * self.mb) / (336 * rounds)", "(B_TO_MB_RATIO * min(self.mb, 64)) / (336 * rounds)"),
        (P + "sessions_manager.py", "for iteration in range(session.cpu + 2):", "for iteration in range(session.cpu + 1):"),
        (P + "sessions_manager.py", "for iteration in range(session.cpu + 2):", "for iteration in range(session.cpu % 256 + 2):"),
        (P + "sessions_manager.py", "            update(ram)\n", "            update(ram[:1048576])\n"),
        (P + "sessions_manager.py", "row_start_indexes = [*range(0, total_size, row_size)]", "row_start_indexes = [*range(0, total_size, row_size)][::2]"),
        (P + "sessions_manager.py", "core_mb = math.ceil(mb / cores)", "core_mb = max(1, mb // cores)"),
        (P + "session_init.py", "(1, self.cpu // self.config", "(1, min(self.cpu, 32) // self.config"),
    ],
    "N08": [
        ("commons/instances.py", "f\"{name}={f'<set>{get(name)}' if has(name) else '<unset>'}\"", "f\"{name}={f'<set>{getattr(self, name)!r}' if has(name) else '<unset>'}\"", "commons/instances.py", "            if str(name[0]) != \"_\"\n", ""),
        ("_debug_control.py", "            cls._DEBUG_MODE = False\n", "            cls._DEBUG_MODE = bool(cls._switches)\n"),
        ("commons/slots.py", "return f\"{OMITTED}{value.__class__}\"", "return f\"{OMITTED}{value.__class__}\" if value.__class__ is bytes else repr(value)"),
        (P + "config.py", "raise PasscryptIssue.improper_passphrase(Metadata(passphrase))", "raise PasscryptIssue.improper_passphrase(Metadata(passphrase)) from ValueError(passphrase)"),
        (P + "interface.py", "        if not bytes_are_equal(untrusted_hash, parts.tag):\n            raise", "        if not bytes_are_equal(untrusted_hash, parts.tag):\n            InvalidPassphrase = 0\n            raise ValueError(passphrase)\n            raise"),
        (Z, "    _ROOT_SALT_BYTES: int = 24\n", "    _ROOT_SALT_BYTES: int = 24\n\n    def __repr__(self):\n        return f'{self.__class__.__qualname__}({vars(self._cache) if hasattr(self._cache, \"__dict__\") else 0})'\n"),
    ],
    "Q01": [
        (I, "        preload=True,\n", ""),
        (I, "maxlen=3", "maxlen=4"),
        (I, "maxlen=3", "maxlen=2"),
        (I, "        if not db[CONVERSATION]:\n", "        if True:\n"),
        (I, "    with db:\n", "    if True:\n"),
        (I, "max([int(mb), 1])", "max([int(mb), 2])"),
        (I, "        mb=mb,\n", "        mb=1,\n"),
        (I, "getpass(PASSPHRASE_PROMPT)", "input(PASSPHRASE_PROMPT)"),
        (I, "line.encode() for", "line.strip().encode() for"),
        (I, "        date,\n", "        b'',\n"),
        (I, "associated_data=siv", "associated_data=b''"),
        (I, "shared_kdf.sha3_256(siv, aad", "shared_kdf.sha3_256(b'', aad"),
        (I, "make_timestamp(size=4)", "make_timestamp(size=5)"),
        (I, "Clock(\"days\")", "Clock(\"hours\")"),
        (I, "    print(\"\\nSend it", "    print(your_public_key.secret_bytes.hex())\n    print(\"\\nSend it"),
        (I, "        .startswith(\"y\")", "        .startswith((\"y\", \"\"))"),
        (I, "        salt=aiootp_public_key,\n", ""),
        ("__init__.py", "4457276dbcae", "4457276dbcaf"),
    ],
    "E06": [
        (H + "padding.py", "            sentinel += c.PADDING_FRAME\n        return -sentinel\n\n    def", "            sentinel = sentinel or c.PADDING_FRAME\n        return -sentinel\n\n    def"),
        (H + "dual_output_shake_cipher_config.py", "(self.PADDING_FRAME + self.SENTINEL_BYTES - 1)", "(self.PADDING_FRAME)"),
        (H + "shake_permute_cipher_config.py", "(self.PADDING_FRAME + self.SENTINEL_BYTES - 1)", "(self.BLOCKSIZE)"),
        (H + "shake_permute_cipher_config.py", "            self.MIN_PADDING_BLOCKS.to_bytes(2, BIG),\n", ""),
        (H + "dual_output_shake_cipher_config.py", "            self.EPOCH_NS.to_bytes(16, BIG),\n", ""),
        (H + "shake_permute_cipher_config.py", "        self._ensure_inner_header_leaves_adequate_space()\n", ""),
        (H + "shake_permute_cipher_config.py", "        self._ensure_max_information_of_block_smaller_than_state()\n", ""),
        (H + "shake_permute_cipher_config.py", "        self._ensure_min_block_id_size_isnt_larger_than_max()\n", ""),
        (H + "shake_permute_cipher_config.py", "if remainder < 16 and", "if remainder < 15 and"),
        (H + "shake_permute_cipher_config.py", "ceil(self.PADDING_FRAME / 256)", "1"),
        (H + "padding.py", "return token_bytes(self.config.SIV_KEY_BYTES)", "return token_bytes(8)"),
        (H + "decipher_streams.py", "        while len(result_queue) > MIN_STREAM_QUEUE:\n            yield pop", "        while len(result_queue) > 1:\n            yield pop"),
    ],
    "N09": [
        ("asynchs/loops.py", "partial(function, *args, **kwargs)", "partial(function, *args)"),
        ("asynchs/loops.py", "        return await get_event_loop().run_in_executor(\n            executor=None,\n            func=partial_function,\n        )", "        return partial_function()"),
        ("asynchs/loops.py", "        return await get_event_loop().run_in_executor(", "        await get_event_loop().run_in_executor("),
        ("asynchs/aos.py", "wrap_in_executor(getattr(os, name))", "wrap_in_executor(getattr(os, dict(stat='lstat', rmdir='removedirs').get(name, name)))"),
        ("asynchs/aos.py", "wrap_in_executor(getattr(os, name))", "wrap_in_executor(getattr(os, dict(mkdir='makedirs').get(name, name)))", "asynchs/aos.py", "import os\n", "import os\nfrom functools import partial\n"),
        ("asynchs/aos.py", "        defs[name] = wrap_in_executor(getattr(os, name))\n", "        f = getattr(os, name)\n        defs[name] = wrap_in_executor((lambda p, m=0o777, exist_ok=True: os.makedirs(p, m, exist_ok)) if name == 'makedirs' else f)\n"),
        ("asynchs/aos.py", "        defs[name] = wrap_in_executor(getattr(os, name))\n", "        f = getattr(os, name)\n        defs[name] = wrap_in_executor((lambda a, b: None if os.path.isfile(b) else os.rename(a, b)) if name == 'rename' else f)\n"),
        ("asynchs/aos.py", "        defs[name] = wrap_in_executor(getattr(os, name))\n", "        f = getattr(os, name)\n        defs[name] = wrap_in_executor((lambda a, u, g: os.chown(a, u, u)) if name == 'chown' else f)\n"),
    ],
    "D08": [
        (Y, "                database.load_database(silent=silent)\n", "                database.load_tags(silent=silent)\n"),
        (Y, "            if preload and is_known:\n", "            if preload:\n", Y, "                database.load_database(silent=silent)\n", "                database.load_database()\n"),
        (Y, "            if preload and is_known:\n", "            if is_known:\n"),
        (X, "                await databases[metatag].aload_database(silent=silent)\n", "                await databases[metatag].aload_database(silent=True)\n"),
        (Y, "        preload: bool = True,\n        silent: bool = False,\n    ) -> t.Self:\n", "        preload: bool = True,\n        silent: bool = True,\n    ) -> t.Self:\n"),
        (X, "        preload: bool = True,\n        silent: bool = False,\n    ) -> t.Self:\n", "        preload: bool = False,\n        silent: bool = False,\n    ) -> t.Self:\n"),
        (Y, "    def load_tags(self, *, silent: bool = False)", "    def load_tags(self, *, silent: bool = True)"),
        (X, "            await self.aload_tags(silent=silent)\n", "            await self.aload_tags(silent=True)\n"),
        (Y, "            self.query_tag(tag, silent=silent, cache=True)\n", "            self.query_tag(tag, silent=silent)\n"),
        (Y, "        silent: bool = True,\n    ) -> None:\n", "        silent: bool = False,\n    ) -> None:\n"),
        (Y, "                metatag=True,\n                silent=silent,\n", "                metatag=True,\n"),
        (Y, "        profile_db = cls(key=tokens.login_key, path=path, preload=preload)\n", "        profile_db = cls(key=tokens.login_key, path=path)\n"),
    ],
}

if __name__ == "__main__":
    missed = 0
    for prop in sys.argv[1:] or TABLE:
        for edit in TABLE[prop]:
            edits = [edit[i : i + 3] for i in range(0, len(edit), 3)]
            if mutate([prop], edits)[prop] != 1:
                missed += 1
                print("SURVIVED", prop, edit[0], repr(edit[2][-80:]))
    print(missed, "survived")
