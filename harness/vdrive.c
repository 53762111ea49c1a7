/*
 * vdrive: runs an aggregate of the extension under a schedule chosen by the specification.
 *
 *   vd(agg regprocedure, argtypes regtype[], prog text, rows text[], result anyelement) returns anyelement
 *
 * rows holds the input rows, flattened (number of aggregate arguments per row), as text.
 * prog is a list of operations on numbered partial states, separated by blanks:
 *   t<r>,<i>   feed row i (0-based) to state r         (transition function)
 *   i<r>,<i>   take row i out of state r               (inverse transition function)
 *   c<a>,<b>   state a := combine(a, b); b is gone     (combine function)
 *   s<r>       state r := deserialize(serialize(r))    (serialize, deserialize functions)
 *   p<r>       finalize state r and drop the answer    (final function, mid-way)
 *   f<r>       finalize state r: the answer            (final function)
 * With moving = true ("m" as first operation) the moving-aggregate functions are used.
 * The functions are called with the same strictness rules as PostgreSQL's executor, in an aggregate context.
 */
#include "postgres.h"
#include "fmgr.h"
#include "access/htup_details.h"
#include "catalog/pg_aggregate.h"
#include "catalog/pg_collation.h"
#include "catalog/pg_type.h"
#include "executor/executor.h"
#include "nodes/execnodes.h"
#include "parser/parse_agg.h"
#include "utils/array.h"
#include "utils/builtins.h"
#include "utils/datum.h"
#include "utils/lsyscache.h"
#include "utils/memutils.h"
#include "utils/syscache.h"

PG_MODULE_MAGIC;
PG_FUNCTION_INFO_V1(vd);

#define MAXREG 64
#define MAXARG 8

typedef struct { Datum v; bool isnull; } Val;

static Val call(FmgrInfo *fi, AggState *as, int n, Val *args)
{
	LOCAL_FCINFO(fc, MAXARG + 1);
	Val r;
	InitFunctionCallInfoData(*fc, fi, n, DEFAULT_COLLATION_OID, (Node *) as, NULL);
	for (int i = 0; i < n; i++) { fc->args[i].value = args[i].v; fc->args[i].isnull = args[i].isnull; }
	r.v = FunctionCallInvoke(fc);
	r.isnull = fc->isnull;
	return r;
}

Datum vd(PG_FUNCTION_ARGS)
{
	Oid agg = PG_GETARG_OID(0);
	ArrayType *atypes = PG_GETARG_ARRAYTYPE_P(1);
	char *prog = text_to_cstring(PG_GETARG_TEXT_PP(2));
	ArrayType *rowsarr = PG_GETARG_ARRAYTYPE_P(3);
	Oid rettype = get_fn_expr_argtype(fcinfo->flinfo, 4);
	MemoryContext caller = CurrentMemoryContext;
	MemoryContext work = AllocSetContextCreate(caller, "vd", ALLOCSET_DEFAULT_SIZES);
	MemoryContext old = MemoryContextSwitchTo(work);
	HeapTuple tup;
	Form_pg_aggregate af;
	Oid transfn, invfn = InvalidOid, combfn, serfn, deserfn, finfn, ttype;
	Oid intypes[MAXARG];
	int nargs;
	Datum *ad; int an;
	Datum *rd; bool *rn; int nr;
	FmgrInfo ftrans, finv, fcomb, fser, fdeser, ffin;
	Expr *e, *e2;
	AggState *as = makeNode(AggState);
	ExprContext *ec = CreateStandaloneExprContext();
	Val st[MAXREG];
	Val *rows;
	Val result = {0, true};
	bool moving = false, finextra;
	char *p;

	as->curaggcontext = ec;
	as->tmpcontext = CreateStandaloneExprContext();

	deconstruct_array_builtin(atypes, OIDOID, &ad, NULL, &an);
	nargs = an;
	if (nargs > MAXARG) elog(ERROR, "vd: too many arguments");
	for (int i = 0; i < nargs; i++) intypes[i] = DatumGetObjectId(ad[i]);
	deconstruct_array_builtin(rowsarr, TEXTOID, &rd, &rn, &nr);
	rows = palloc0(sizeof(Val) * (nr + 1));
	for (int i = 0; i < nr; i++)
	{
		Oid t = intypes[i % nargs], inf, iop;
		rows[i].isnull = rn[i];
		if (!rn[i])
		{
			getTypeInputInfo(t, &inf, &iop);
			rows[i].v = OidInputFunctionCall(inf, TextDatumGetCString(rd[i]), iop, -1);
		}
	}

	p = prog;
	while (*p == ' ') p++;
	if (*p == 'm') { moving = true; p++; }

	tup = SearchSysCache1(AGGFNOID, ObjectIdGetDatum(agg));
	if (!HeapTupleIsValid(tup)) elog(ERROR, "vd: not an aggregate");
	af = (Form_pg_aggregate) GETSTRUCT(tup);
	if (moving)
	{
		transfn = af->aggmtransfn; invfn = af->aggminvtransfn; finfn = af->aggmfinalfn; ttype = af->aggmtranstype; finextra = af->aggmfinalextra;
	}
	else
	{
		transfn = af->aggtransfn; finfn = af->aggfinalfn; ttype = af->aggtranstype; finextra = af->aggfinalextra;
	}
	combfn = af->aggcombinefn; serfn = af->aggserialfn; deserfn = af->aggdeserialfn;
	ReleaseSysCache(tup);
	if (ttype != INTERNALOID) elog(ERROR, "vd: only internal states");

	build_aggregate_transfn_expr(intypes, nargs, 0, false, ttype, DEFAULT_COLLATION_OID, transfn, invfn, &e, OidIsValid(invfn) ? &e2 : NULL);
	fmgr_info(transfn, &ftrans); fmgr_info_set_expr((Node *) e, &ftrans);
	if (OidIsValid(invfn)) { fmgr_info(invfn, &finv); fmgr_info_set_expr((Node *) e2, &finv); }
	if (OidIsValid(combfn))
	{
		fmgr_info(combfn, &fcomb);
		build_aggregate_transfn_expr(&ttype, 1, 0, false, ttype, DEFAULT_COLLATION_OID, combfn, InvalidOid, &e, NULL);
		fmgr_info_set_expr((Node *) e, &fcomb);
	}
	if (OidIsValid(serfn)) { fmgr_info(serfn, &fser); build_aggregate_serialfn_expr(serfn, &e); fmgr_info_set_expr((Node *) e, &fser); }
	if (OidIsValid(deserfn)) { fmgr_info(deserfn, &fdeser); build_aggregate_deserialfn_expr(deserfn, &e); fmgr_info_set_expr((Node *) e, &fdeser); }
	if (OidIsValid(finfn))
	{
		fmgr_info(finfn, &ffin);
		build_aggregate_finalfn_expr(intypes, finextra ? nargs + 1 : 1, ttype, rettype, DEFAULT_COLLATION_OID, finfn, &e);
		fmgr_info_set_expr((Node *) e, &ffin);
	}

	for (int i = 0; i < MAXREG; i++) { st[i].v = 0; st[i].isnull = true; }
	while (*p)
	{
		char op = *p++;
		int a, b = 0;
		Val args[MAXARG + 1];
		if (op == ' ') continue;
		a = (int) strtol(p, &p, 10);
		if (*p == ',') { p++; b = (int) strtol(p, &p, 10); }
		if (a < 0 || a >= MAXREG) elog(ERROR, "vd: bad register");
		switch (op)
		{
			case 't': case 'i':
			{
				FmgrInfo *f = op == 't' ? &ftrans : &finv;
				bool skip = false;
				if (op == 'i' && !OidIsValid(invfn)) elog(ERROR, "vd: no inverse transition function");
				if (b < 0 || (b + 1) * nargs > nr) elog(ERROR, "vd: bad row");
				args[0] = st[a];
				for (int i = 0; i < nargs; i++) { args[i + 1] = rows[b * nargs + i]; if (args[i + 1].isnull) skip = true; }
				if (f->fn_strict && (skip || st[a].isnull)) break;
				st[a] = call(f, as, nargs + 1, args);
				break;
			}
			case 'c':
				if (!OidIsValid(combfn)) elog(ERROR, "vd: no combine function");
				if (b < 0 || b >= MAXREG) elog(ERROR, "vd: bad register");
				args[0] = st[a]; args[1] = st[b];
				if (fcomb.fn_strict)
				{
					if (st[b].isnull) break;
					if (st[a].isnull) { st[a] = st[b]; st[b].isnull = true; break; }
				}
				st[a] = call(&fcomb, as, 2, args);
				st[b].isnull = true; st[b].v = 0;
				break;
			case 's':
			{
				if (!OidIsValid(serfn) || !OidIsValid(deserfn)) elog(ERROR, "vd: no serialize function");
				if (fser.fn_strict && st[a].isnull) break;
				args[0] = st[a];
				st[a] = call(&fser, as, 1, args);
				if (fdeser.fn_strict && st[a].isnull) break;
				/* detach from the serializing state */
				if (!st[a].isnull) st[a].v = datumCopy(st[a].v, false, -1);
				args[0] = st[a]; args[1].v = 0; args[1].isnull = false;
				st[a] = call(&fdeser, as, 2, args);
				break;
			}
			case 'p': case 'f':
			{
				Val r;
				if (!OidIsValid(finfn)) elog(ERROR, "vd: no final function");
				args[0] = st[a];
				for (int i = 0; i < nargs; i++) { args[i + 1].v = 0; args[i + 1].isnull = true; }
				if (ffin.fn_strict && (st[a].isnull || finextra)) { r.v = 0; r.isnull = true; }
				else r = call(&ffin, as, finextra ? nargs + 1 : 1, args);
				if (op == 'f') result = r;
				break;
			}
			default:
				elog(ERROR, "vd: bad operation %c", op);
		}
	}
	MemoryContextSwitchTo(old);
	if (!result.isnull)
	{
		int16 len; bool byval;
		get_typlenbyval(rettype, &len, &byval);
		result.v = datumCopy(result.v, byval, len);
	}
	FreeExprContext(ec, true);
	MemoryContextDelete(work);
	if (result.isnull) PG_RETURN_NULL();
	PG_RETURN_DATUM(result.v);
}
