#!/usr/bin/env python3
"""Writes known_findings.json: open findings (key = rule|function|message as the check reports it) and fixed ones."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def fixed(pid, commit, what): F.append({'property': pid, 'status': 'fixed', 'commit': commit, 'record': 'fixed: property=%s %s %s' % (pid, commit, what)})
def open_(pid, key, what): F.append({'property': pid, 'status': 'open', 'key': key, 'record': what})
fixed('C03', '2ff80ed', 'thread pool signalled only one of several waiters of different kinds (job queue empty)')
fixed('C03', 'a2b2ad8', 'scheduler was not woken when the front of its queue changed to an earlier start')
fixed('C03', '695f709', 'scheduler slept on a deadline computed in an earlier lock hold')
fixed('C02', 'f1801a9', 'schedule run/abort callbacks were read again outside the lock after being tested')
fixed('C07', '7a20008', 'schedule re-queued after a failed dispatch although removed meanwhile')
fixed('C04', '39846f6', 'synchronous schedule functions and free callbacks ran inside the scheduler lock')
fixed('C08', '19055ea', 'scheduler freed while its thread was still using it')
fixed('M02', '3287f82', 'fallback thread of a schedule neither joined nor detached')
fixed('M01', '6df55b9', 'queue did not free an element it owned when stopped while full')
fixed('M01', '1688325', 'copy of pointer data took an extra reference to its metadata')
fixed('M02', '5415a60', 'directory stream leaked when the file list expression did not compile')
fixed('D01', 'b2c088c', 'map not rehashed after replacing a value through an iterator')
fixed('D01', '2ae6067', 'map not rehashed after converting a base64 value')
fixed('D01', '2d21c52', 'resize to the same size dropped a pending rehash')
fixed('D01', 'b35169f', 'emptied array kept its old hash; copy overflowed its allocation')
fixed('D01', '58583b4', 'incremented value kept the hash of its first value')
fixed('D01', '6482e89', 'empty arrays made from a non-NULL pointer hashed differently and leaked the memory taken')
fixed('A03', '55704dc', 'stopping a stopped logger lost the level it had')
fixed('R01', '81efafb', 'run of a schedule whose thread could not be started was lost without being counted or the abort callback called')
fixed('C09', 'a3e4430', 'thread priority range cached in unsynchronised variables: first creations of threads raced')
fixed('C09', '8b86791', 'default logger initialised without synchronisation: it could be used half made')
fixed('C09', '0419b94', 'chain of components being loaded shared between threads: two containers loading at once saw a false cyclic reference')
fixed('A03', '9d2ca9a', 'setting a logger\'s successor to the one it has released it before holding it')
fixed('K01', '5224526', 'failed configuration look-up without a logger dereferenced it instead of using the default one')
fixed('E01', 'a89daa4', 'file write reported success although closing or renaming failed')
fixed('E01', 'bf0fce5', 'unreadable or partly read file returned as content')
fixed('E01', '2ca25d0', 'store without a reader left the length unset')
fixed('E01', '8878647', 'listing a store whose directory cannot be read used a NULL list')
fixed('P01', '33ce508', 'unquoted JSON text that is not a number gave a map or list a NULL value')
fixed('P01', '93a284e', 'logger configured without a name handed NULL on as its name')
fixed('P01', '1a8914d', 'writing a vector with unset elements as JSON or CBOR read through NULL')
fixed('P01', '5620507', 'path lookup aborted instead of answering NULL when the path does not match')
fixed('P01', '452c611', 'adding, removing or updating at a path that is not there yet aborted')
fixed('P01', '1a93ebf', 'listing components by category read through a factory without a category')
fixed('P01', '2bc32ef', 'compressing a vector with unset elements aborted')
fixed('P01', '350d9aa', 'reading an unset vector element as a string aborted')
fixed('P01', '4230248', 'adding below a path that is not there read through NULL in release builds')
fixed('S02', '0fd6118', 'a JSON escape that cannot be represented moved the output before the start of its buffer')
fixed('S02', 'd5af11b', 'a JSON object key without a value was read past the parsed tokens')
fixed('S02', 'c9685ce', 'a long host name in a logger configuration overflowed its buffer')
fixed('S02', '2c8fcae', 'the length of a truncated log message ran beyond its buffer')
fixed('E01', '118df69', 'a file named b.geojson was listed as the configuration b.ge')
open_('C02', 'guard|iot_container_add_component|components of a container changed without holding its lock for writing', 'a component added to a container in use is put into its list without the lock of the container: a thread that lists, finds, starts or stops components meanwhile reads a list half changed (thread sanitizer: iot_container_add_component in one thread, iot_container_list_components in another)')
open_('C02', 'guard|iot_container_find_component|components of a container changed without holding its lock for writing', 'a component loaded because it is looked up is put into the list with the container locked for reading only: two lookups at once change the list at the same time; taking the lock for writing there would deadlock when a component being configured or started looks up another')
exec(open(os.path.join(V, 'gen', 'open.py')).read()) if os.path.exists(os.path.join(V, 'gen', 'open.py')) else None
json.dump({'findings': F}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
