#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
T = {
 'trade': 'runtime monitoring: offline conservation/trace oracles over recorded backtest event logs of generated markets',
 'model': 'runtime monitoring: differential oracle (independent reference model) over recorded executions of the real code',
 'gen': 'runtime monitoring: online monitors on hooked operators (events of evaluation, crossover, mutation, selection) plus offline trace checks',
 'inv': 'runtime monitoring: invariant and law monitors over generated executions, exact integer/decimal oracles',
 'srv': 'runtime monitoring: the real server binary against a recording, fault injecting upstream; oracle over the recorded request/response history',
 'client': 'runtime monitoring: the real client library against a recording, fault injecting upstream; oracle over recorded requests and results of concurrent calls',
 'race': 'ThreadSanitizer, AddressSanitizer and Miri over multi-threaded stress of the real code, with result monitors',
}
K = {}
for i in ['C01','C02','C03','C04','C05','C07']: K[i]='trade'
for i in ['C06','C14','C15','C16','C17','C18','C19','C20','C21','C22']: K[i]='model'
for i in ['C08','C09','C10','C11','C12','C13']: K[i]='gen'
for i in ['C23','C24','C25','C26','C27','C28','C29']: K[i]='inv'
for i in ['S01','S02','S03','S04','S05']: K[i]='srv'
K['S06']='client'
K['R01']='race'
NOTE = {
 'trade': 'Seeded random markets (trends, crashes, flats, gaps), strategies (scripted and real), filters, fees and borrow terms; the oracle is recomputed independently from candles and advice for every position. Bounded by the number of generated cases, no exhaustiveness claimed.',
 'model': 'Independent reference computation compared at every step of every generated execution; bounded by the number of generated cases.',
 'gen': 'Monitors wrap the real operators and judge every event of real evolutions; reach bounded by the number of seeded runs.',
 'inv': 'Laws judged on random and boundary values by exact oracles; bounded by the number of generated cases.',
 'srv': 'Real server process over loopback; scenarios (delays, faults, concurrency, malformed requests) are seeded random; bounded by the number of requests.',
 'client': 'Every kind of fault at every client method, alone and among concurrent calls of a shared client; seeded random, bounded by the number of calls.',
 'race': 'TSan/ASan rounds on natively running threads (schedules as the OS gives them, with random jitter) and a few Miri rounds with randomised schedules; races not exercised are not seen. Races inside crossbeam-epoch (fence based, unsupported by TSan) are suppressed.',
}
checks=[]
for l in open('properties.jsonl'):
    i=json.loads(l)['id']; k=K[i]
    note=NOTE[k]; level='exploration'
    if i=='S03':
        level='fault_enumeration'
        note='Every kind of fault (error statuses, malformed bodies, closed connections) at every upstream call of generated requests; the recorded upstream history must match what is needed exactly. ' + note
    if i=='S06': level='fault_enumeration'
    checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
        evidence_file=f'evidence/{i}.json', technique=T[k], level=level, level_note=note))
m=dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
  notes='No hooks in /repo: all components are reached through the public API and through user-side implementations of its traits. known_findings.txt lists the defects found and repaired.')
json.dump(m, open('MANIFEST.json','w'), indent=1); open('MANIFEST.json','a').write('\n')
