"""Reference semantics of batch runs (custom_batchrunner.py)."""
import itertools
from copy import copy
from functools import partial
from multiprocessing import Pool
from typing import Counter

from tqdm import tqdm
import pathlib

import logic.helper as hlp
import custom_batchrunner as cb



def make_model_kwargs(parameters):
    parameter_list = []
    fixed_params = []
    for param, values in parameters.items():
        if isinstance(values, str):
            all_values = [(param, values)]
            fixed_params.append(param)
        else:
            try:
                all_values = [(param, value) for value in values]
            except TypeError:
                all_values = [(param, values)]
                fixed_params.append(param)
        parameter_list.append(all_values)
    return [dict(kwargs) for kwargs in itertools.product(*parameter_list)], fixed_params


def collect_data(model, step):
    dc = model.datacollector
    model_data = {param: values[step] for param, values in dc.model_vars.items()}
    agents_data = []
    for data in dc._agent_records.get(step, []):
        record = {"AgentID": data[1]}
        record.update(zip(dc.agent_reporters, data[2:]))
        agents_data.append(record)
    return model_data, agents_data


def model_run(model_cls, kwargs, max_steps, data_collection_period, batch_run_id, fixed_params):
    model = model_cls(**kwargs)
    while model.running and model.schedule.steps <= max_steps:
        model.step()
    data = []
    collected_steps = max((len(values) for values in model.datacollector.model_vars.values()), default=model.schedule.steps)
    last_step = collected_steps - 1
    steps = list(range(0, collected_steps, data_collection_period))
    if not steps or steps[-1] != last_step:
        steps.append(last_step)
    for step in steps:
        model_data, all_agents_data = cb._collect_data(model, step)
        if all_agents_data:
            stepdata = [
                {**{"Step": step}, **kwargs, **model_data, **agent_data}
                for agent_data in all_agents_data
            ]
        else:
            stepdata = [{**{"Step": step}, **kwargs, **model_data}]
            if step == last_step:
                header = [key for key in stepdata[0].keys() if key not in fixed_params]
                row = [value for key, value in stepdata[0].items() if key not in fixed_params]
                filename = 'aggregate-results-' + batch_run_id + '.csv'
                path = pathlib.Path.cwd() / "output" / batch_run_id
                filepath = path / filename
                hlp.write_to_csv(filepath, header, row)
        data.extend(stepdata)
    return tuple(kwargs.values()), data


def batch_run(model_cls, parameters, batch_run_id, number_processes=1, iterations=1, data_collection_period=-1,
              max_steps=1000, display_progress=True, initial_seed=0):
    seq_id = hlp.read_seq_id() + 1
    hlp.write_seq_id(seq_id)
    batch_run_id = str(seq_id) + '-' + batch_run_id
    path = pathlib.Path.cwd() / "output" / batch_run_id
    pathlib.Path(path).mkdir(parents=True)
    parameters.update({'parent_dir': path})
    kwargs_list, fixed_params = cb._make_model_kwargs(parameters)
    final_kwargs_list = [
        copy(kwarg_dict) | {'seed': initial_seed + i}
        for kwarg_dict in kwargs_list
        for i in range(iterations)
    ]
    for i, params in enumerate(final_kwargs_list):
        seq_id = i + 1
        execution_id = '-'.join([str(key) + '-' + str(value) for key, value in params.items() if key not in fixed_params])
        params.update({'seq_id': seq_id, 'execution_id': execution_id})
    process_func = partial(
        cb._model_run_func,
        model_cls,
        max_steps=max_steps,
        data_collection_period=data_collection_period,
        batch_run_id=batch_run_id,
        fixed_params=fixed_params
    )
    total_iterations = len(final_kwargs_list)
    run_counter = itertools.count()
    results = []
    with tqdm(total_iterations, disable=not display_progress) as pbar:
        iteration_counter = Counter()

        def _fn(paramValues, rawdata):
            iteration_counter[paramValues] += 1
            iteration = iteration_counter[paramValues]
            run_id = next(run_counter)
            data = []
            for run_data in rawdata:
                out = {"RunId": run_id, "iteration": iteration - 1}
                out.update(run_data)
                data.append(out)
            results.extend(data)
            pbar.update()

        if number_processes == 1:
            for kwargs in final_kwargs_list:
                paramValues, rawdata = process_func(kwargs)
                _fn(paramValues, rawdata)
        else:
            with Pool(number_processes) as p:
                for paramValues, rawdata in p.imap_unordered(process_func, final_kwargs_list):
                    _fn(paramValues, rawdata)
    return results, path
