# behaviour-preserving edits: every check must stay quiet on each of them
R = []
I = 'source/int.c'; C = 'source/clast.c'; B = 'source/block.c'; L = 'source/loop.c'; D = 'source/isl/domain.c'; K = 'source/isl/constraints.c'; S = 'source/statement.c'
def r(id, props, *edits): R.append((id, props.split(), edits))
r('int-neg-down', 'C05', (I, '''	unsigned int i;
	for (i = 0; i < len; ++i)
		cloog_int_neg(dst[i], src[i]);''', '''	unsigned int k = len;
	while (k > 0) {
		--k;
		cloog_int_neg(dst[k], src[k]);
	}'''))
r('int-combine-helper', 'C05', (I, '''void cloog_seq_combine(''', '''static void combine_element(cloog_int_t *d, cloog_int_t m1, cloog_int_t a,
	cloog_int_t m2, cloog_int_t b)
{
	cloog_int_t tmp;

	cloog_int_init(tmp);
	cloog_int_mul(tmp, m1, a);
	cloog_int_addmul(tmp, m2, b);
	cloog_int_set(*d, tmp);
	cloog_int_clear(tmp);
}

void cloog_seq_combine('''), (I, '''	cloog_int_t tmp;

	cloog_int_init(tmp);
	for (i = 0; i < len; ++i) {
		cloog_int_mul(tmp, m1, src1[i]);
		cloog_int_addmul(tmp, m2, src2[i]);
		cloog_int_set(dst[i], tmp);
	}
	cloog_int_clear(tmp);''', '''
	for (i = 0; i < len; ++i)
		combine_element(&dst[i], m1, src1[i], m2, src2[i]);'''))
r('int-absmin-loop', 'C05', (I, '''	int i, min = cloog_seq_first_non_zero(p, len);
	if (min < 0)
		return -1;
	for (i = min + 1; i < (int) len; ++i) {
		if (cloog_int_is_zero(p[i]))
			continue;
		if (cloog_int_abs_lt(p[i], p[min]))
			min = i;
	}
	return min;''', '''	int i, best = -1;

	for (i = 0; i < (int) len; ++i) {
		if (cloog_int_is_zero(p[i]))
			continue;
		if (best < 0 || cloog_int_abs_lt(p[i], p[best]))
			best = i;
	}
	return best;'''))
r('int-gcd-all', 'C05', (I, '''		if (i == min)
			continue;
		if (cloog_int_is_zero(p[i]))
			continue;
		cloog_int_gcd(*gcd, *gcd, p[i]);''', '''		if (i != min && !cloog_int_is_zero(p[i]))
			cloog_int_gcd(*gcd, *gcd, p[i]);'''))
r('int-isneg-order', 'C05', (I, '''		if (cloog_int_abs_ne(p1[i], p2[i]))
			return 0;
		if (cloog_int_is_zero(p1[i]))
			continue;
		if (cloog_int_eq(p1[i], p2[i]))
			return 0;''', '''		if (cloog_int_is_zero(p1[i]) && cloog_int_is_zero(p2[i]))
			continue;
		if (cloog_int_eq(p1[i], p2[i]) || cloog_int_abs_ne(p1[i], p2[i]))
			return 0;'''))
r('clast-redcmp-while', 'C04', (C, '''    for (i = 0; i < r1->n; ++i)
	if ((c = clast_expr_cmp(r1->elts[i], r2->elts[i])))
	    return c;
    return 0;''', '''    c = 0;
    i = 0;
    while (i < r1->n && c == 0) {
	c = clast_expr_cmp(r1->elts[i], r2->elts[i]);
	i++;
    }
    return c;'''))
r('clast-copy-helper', 'C04', (C, '''static struct clast_expr *clast_expr_copy(struct clast_expr *e)
{
    if (!e)''', '''static struct clast_reduction *copy_reduction(struct clast_reduction *r)
{
    int k;
    struct clast_reduction *res = new_clast_reduction(r->type, r->n);

    for (k = 0; k < r->n; ++k)
	res->elts[k] = clast_expr_copy(r->elts[k]);
    return res;
}

static struct clast_expr *clast_expr_copy(struct clast_expr *e)
{
    if (!e)'''), (C, '''	int i;
	struct clast_reduction *r = (struct clast_reduction*) e;
	struct clast_reduction *r2 = new_clast_reduction(r->type, r->n);
	for (i = 0; i < r->n; ++i)
	    r2->elts[i] = clast_expr_copy(r->elts[i]);
	return &r2->expr;''', '''	return &copy_reduction((struct clast_reduction*) e)->expr;'''))
r('clast-bigger-reorder', 'C04', (C, '''    if (e1->type != clast_expr_term || e2->type != clast_expr_term)
	return 0;
    t1 = (struct clast_term *)e1;
    t2 = (struct clast_term *)e2;
    if (t1->var || t2->var)
	return 0;
    return cloog_int_gt(t1->val, t2->val);''', '''    if (e1->type == clast_expr_term && e2->type == clast_expr_term) {
	t2 = (struct clast_term *)e2;
	t1 = (struct clast_term *)e1;
	if (!t2->var && !t1->var)
	    return cloog_int_lt(t2->val, t1->val);
    }
    return 0;'''))
r('clast-bound-const-helper', 'C01', (C, '''struct clast_expr *clast_bound_from_constraint(CloogConstraint *constraint,
					       int level, CloogNames *names)
{ ''', '''static struct clast_expr *rounded_constant(cloog_int_t num, cloog_int_t den,
					   int lower)
{
  struct clast_expr *e;
  cloog_int_t q;

  cloog_int_init(q);
  cloog_int_fdiv_q(q, num, den);
  if (lower && !cloog_int_is_divisible_by(num, den))
    cloog_int_add_ui(q, q, 1);
  e = &new_clast_term(q, NULL)->expr;
  cloog_int_clear(q);
  return e;
}

struct clast_expr *clast_bound_from_constraint(CloogConstraint *constraint,
					       int level, CloogNames *names)
{ '''), (C, '''            if (cloog_int_is_divisible_by(numerator, denominator)) {
              cloog_int_divexact(temp, numerator, denominator);
	      e = &new_clast_term(temp, NULL)->expr;
            }
            else {
              cloog_int_init(division);
	      cloog_int_tdiv_q(division, numerator, denominator);
	      if (cloog_int_is_neg(numerator)) {
                if (cloog_int_is_pos(line[level])) {
		    /* nb<0 need max */
		    e = &new_clast_term(division, NULL)->expr;
		} else {
                  /* nb<0 need min */
                  cloog_int_sub_ui(temp, division, 1);
		  e = &new_clast_term(temp, NULL)->expr;
                }
	      }
              else
              { if (cloog_int_is_pos(line[level]))
	        { /* nb>0 need max */
                  cloog_int_add_ui(temp, division, 1);
		  e = &new_clast_term(temp, NULL)->expr;
                }
		else
		    /* nb>0 need min */
		    e = &new_clast_term(division, NULL)->expr;
              }
	      cloog_int_clear(division);
            }
''', '''            e = rounded_constant(numerator, denominator,
				 cloog_int_is_pos(line[level]));
'''), (C, 'cloog_int_t *line, numerator, denominator, temp, division;', 'cloog_int_t *line, numerator, denominator, temp;'))
r('clast-bound-reverse-count', 'C01', (C, '''    for (i = 1, nb_elts = 0; i <= len - 1; ++i)
	if (i != level && !cloog_int_is_zero(line[i]))
	    nb_elts++;
    r = new_clast''', '''    nb_elts = 0;
    for (i = len - 1; i >= 1; --i) {
	if (i == level)
	    continue;
	nb_elts += cloog_int_is_zero(line[i]) ? 0 : 1;
    }
    r = new_clast'''))
r('clast-bound-line-signed', 'C01', (C, '''      if (sign == -1)
	cloog_int_neg(temp,line[i]);
      else
	cloog_int_set(temp,line[i]);
      
      r->elts''', '''      cloog_int_set(temp,line[i]);
      if (sign < 0)
	cloog_int_neg(temp,temp);

      r->elts'''))
r('clast-modguard-restructure', 'C02', (C, '''    g = new_clast_guard(1);
    if (!cloog_constraint_is_valid(lower)) {
	g->eq[0].LHS = e;
	cloog_int_set_si(bound, 0);
	g->eq[0].RHS = &new_clast_term(bound, NULL)->expr;
	g->eq[0].sign = 0;
    } else {
	g->eq[0].LHS = e;
	g->eq[0].RHS = &new_clast_term(bound, NULL)->expr;
	g->eq[0].sign = -1;
    }
''', '''    g = new_clast_guard(1);
    g->eq[0].LHS = e;
    g->eq[0].sign = -1;
    if (!cloog_constraint_is_valid(lower)) {
	cloog_int_set_si(bound, 0);
	g->eq[0].sign = 0;
    }
    g->eq[0].RHS = &new_clast_term(bound, NULL)->expr;
'''))
r('clast-elim-helper', 'C02', (C, '''static void eliminate_using_stride_constraint(''', '''static void addmul_mod(cloog_int_t *dst, cloog_int_t f, cloog_int_t v,
	cloog_int_t m)
{
	cloog_int_addmul(*dst, f, v);
	cloog_int_fdiv_r(*dst, *dst, m);
}

static void eliminate_using_stride_constraint('''), (C, '''			cloog_int_addmul(line[i], t, v);
			cloog_int_fdiv_r(line[i], line[i], m);
		}
		s_len''', '''			addmul_mod(&line[i], t, v, m);
		}
		s_len'''), (C, '''		cloog_int_addmul(line[len - 1], t, v);
		cloog_int_fdiv_r(line[len - 1], line[len - 1], m);
		cloog_int_clear(v);''', '''		addmul_mod(&line[len - 1], t, v, m);
		cloog_int_clear(v);'''))
r('clast-elim-merge-return', 'C02', (C, '''	if (!stride)
		return;
	if (!cloog_int_is_divisible_by(stride->stride, m))
		return;
''', '''	if (!stride || !cloog_int_is_divisible_by(stride->stride, m))
		return;
'''))
r('clast-modguard-count', 'C02', (C, '''    nb_elts = 0;
    for (i = 1; i <= len-1; ++i) {
	if (i == level)
	    continue;
	cloog_int_fdiv_r(line[i], line[i], line[level]);
	if (cloog_int_is_zero(line[i]))
	    continue;
	if (i == len-1)
	    continue;

	nb_elts++;
    }
''', '''    nb_elts = 0;
    for (i = 1; i < len; i++) {
	if (i != level) {
	    cloog_int_fdiv_r(line[i], line[i], line[level]);
	    if (i != len-1 && !cloog_int_is_zero(line[i]))
		nb_elts++;
	}
    }
'''))
r('block-list-free-for', 'C07', (B, '''{ CloogBlockList * temp ;
  
  while (blocklist != NULL)
  { temp = blocklist->next ;
    cloog_block_free(blocklist->block) ;
    free(blocklist) ;
    blocklist = temp ;
  }''', '''{ CloogBlockList * next ;

  for (; blocklist; blocklist = next)
  { next = blocklist->next ;
    cloog_block_free(blocklist->block) ;
    free(blocklist) ;
  }'''))
r('block-merge-tail', 'C07', (B, '''  if (block->statement != NULL)
  { statement = block->statement ;
    
    while (statement->next != NULL)
    statement = statement->next ;
    
    statement->next = merged->statement ;
  }
  else
  block->statement = merged->statement ;

  merged->statement = NULL;
''', '''  CloogStatement * moved = merged->statement ;
  merged->statement = NULL;
  if (block->statement == NULL)
  block->statement = moved ;
  else
  { for (statement = block->statement; statement->next; statement = statement->next)
      ;
    statement->next = moved ;
  }
'''))
r('block-free-helper', 'C07 C06', (B, '''void cloog_block_free(CloogBlock * block)
{ int i ;
''', '''static void clear_scaldims(CloogBlock *block)
{
  int k = 0;

  if (!block->scaldims)
    return;
  while (k < block->nb_scaldims) {
    cloog_int_clear(block->scaldims[k]);
    k++;
  }
  free(block->scaldims);
}

void cloog_block_free(CloogBlock * block)
{
'''), (B, '''      if (block->scaldims != NULL)
      { for (i=0;i<block->nb_scaldims;i++)
	  cloog_int_clear(block->scaldims[i]);
      
        free(block->scaldims) ;
      }
''', '''      clear_scaldims(block);
'''))
r('loop-restrict-single', 'C06 C07', (L, '''  if (cloog_domain_dimension(domain) > cloog_domain_dimension(context))
  {
    new_dimension = cloog_domain_dimension(domain);
    extended_context = cloog_domain_extend(context, new_dimension);
    new_domain = cloog_domain_intersection(extended_context,loop->domain) ;
    cloog_domain_free(extended_context) ;
  }
  else
  new_domain = cloog_domain_intersection(context,loop->domain) ;
''', '''  new_dimension = cloog_domain_dimension(domain);
  if (new_dimension > cloog_domain_dimension(context))
    extended_context = cloog_domain_extend(context, new_dimension);
  else
    extended_context = cloog_domain_copy(context);
  new_domain = cloog_domain_intersection(domain, extended_context);
  cloog_domain_free(extended_context);
'''))
r('loop-stop-iter', 'C06 C07', (L, '''{ if (loop == NULL)
  return NULL ;
  else
  { cloog_domain_free(loop->domain) ;
    loop->domain = cloog_domain_copy(context) ;
    loop->next = cloog_loop_stop(loop->next, context) ;
  }
  
  return loop ;
}''', '''{ CloogLoop *l;

  for (l = loop; l; l = l->next)
  { cloog_domain_free(l->domain) ;
    l->domain = cloog_domain_copy(context) ;
  }

  return loop ;
}'''))
r('loop-concat-early', 'C06 C07', (L, '''{ CloogLoop * loop, * temp ;

  loop = a  ;
  temp = loop ;
  if (loop != NULL)
  { while (temp->next != NULL)
    temp = temp->next ;
    temp->next = b ;
  }
  else
  loop = b ;
  
  return(loop) ;''', '''{ CloogLoop * last ;

  if (a == NULL)
    return b ;
  for (last = a; last->next; last = last->next)
    ;
  last->next = b ;

  return a ;'''))
r('loop-combine-rewrite', 'C06 C07', (L, '''	while (first->next) {
	    if (!cloog_domain_lazy_equal(first->domain, first->next->domain))
		break;
	    second = first->next;
	    first->inner''', '''	while ((second = first->next) != NULL &&
	       cloog_domain_lazy_equal(first->domain, second->domain)) {
	    first->inner'''))
r('loop-restrict-inner-rewrite', 'C06 C07', (L, '''    for (; loop; loop = next) {
	next = loop->next;

	loop->inner = cloog_loop_restrict_all(loop->inner, loop->domain);
	if (loop->inner) {
	    *res_next = loop;
	    res_next = &(*res_next)->next;
	} else {
	    loop->next = NULL;
	    cloog_loop_free(loop);
	}
    }
''', '''    while (loop) {
	next = loop->next;
	loop->inner = cloog_loop_restrict_all(loop->inner, loop->domain);
	if (!loop->inner) {
	    loop->next = NULL;
	    cloog_loop_free(loop);
	} else {
	    *res_next = loop;
	    res_next = &loop->next;
	}
	loop = next;
    }
'''))
r('dom-canstride-helper', 'C10', (D, '''static int constraint_can_stride(__isl_take''', '''static int involves_div(__isl_keep isl_constraint *c)
{
	int k;
	int found = 0;
	isl_size n = isl_constraint_dim(c, isl_dim_div);

	for (k = 0; !found && k < n; ++k) {
		isl_val *x = isl_constraint_get_coefficient_val(c, isl_dim_div, k);
		found = !isl_val_is_zero(x);
		isl_val_free(x);
	}
	return found;
}

static int constraint_can_stride(__isl_take'''), (D, '''	if (isl_val_is_pos(v)) {
		n_div = isl_constraint_dim(c, isl_dim_div);

		for (i = 0; i < n_div; ++i) {
			isl_val_free(v);
			v = isl_constraint_get_coefficient_val(c, isl_dim_div, i);
			if (!isl_val_is_zero(v))
				break;
		}
		if (i < n_div)
			ccs->can_stride = 0;
	}
	isl_val_free(v);

	isl_constraint_free(c);
	return 0;''', '''	if (isl_val_is_pos(v) && involves_div(c))
		ccs->can_stride = 0;
	isl_val_free(v);

	isl_constraint_free(c);
	return 0;'''), (D, '''	struct cloog_can_stride *ccs = (struct cloog_can_stride *)user;
	int i;
	isl_val *v;
	isl_size n_div;
''', '''	struct cloog_can_stride *ccs = (struct cloog_can_stride *)user;
	isl_val *v;
'''))
r('dom-canunroll-restructure', 'C10', (D, '''	if (isl_val_is_pos(v) &&
			is_valid_unrolling_lower_bound(ccu, c, &count) &&
			(!ccu->c || (isl_val_lt(count, ccu->n))) ) {
		isl_constraint_free(ccu->c);
		ccu->c = isl_constraint_copy(c);
		if (ccu->n)
			isl_val_free(ccu->n);
		ccu->n = isl_val_copy(count);
	}
	isl_val_free(count);
	isl_val_free(v);
	isl_constraint_free(c);
''', '''	if (isl_val_is_pos(v) && is_valid_unrolling_lower_bound(ccu, c, &count)) {
		if (!ccu->c || isl_val_lt(count, ccu->n)) {
			isl_val_free(ccu->n);
			ccu->n = isl_val_copy(count);
			isl_constraint_free(ccu->c);
			ccu->c = isl_constraint_copy(c);
		}
	}
	isl_val_free(v);
	isl_val_free(count);
	isl_constraint_free(c);
'''))
r('dom-cutfirst-reverse', 'C16 C06 C07', (D, '''	set = isl_set_empty(isl_basic_set_get_space(first));
	for (i = 1; i < n; ++i) {
		set = isl_set_union(set, isl_set_from_basic_set(
			isl_basic_set_list_get_basic_set(list, i)));
	}
''', '''	set = isl_set_empty(isl_basic_set_get_space(first));
	i = 1;
	while (i < n) {
		isl_basic_set *piece;

		piece = isl_basic_set_list_get_basic_set(list, i++);
		set = isl_set_union(set, isl_set_from_basic_set(piece));
	}
'''))
