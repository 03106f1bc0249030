#include "lemma.h"

/* head <-> a is a fragment of any ring; n is not in it */
void lemma_add_nonempty(zt_elist_t *head, zt_elist_t *a, zt_elist_t *b, zt_elist_t *n) {
    head->next = a; a->prev = head; a->next = b; 
    zt_elist_t *l = head->prev;
    zt_elist_add(head, n);
    zv_check(head->next == n && n->prev == head, "an added element is first");
    zv_check(n->next == a && a->prev == n, "an added element precedes the old first");
    zv_check(a->next == b && head->prev == l, "adding leaves the other links");
}

void lemma_add_empty(zt_elist_t *head, zt_elist_t *n) {
    zt_elist_reset(head);
    zv_check(zt_elist_empty(head) != 0, "a reset list is empty");
    zt_elist_add(head, n);
    zv_check(!zt_elist_empty(head), "a list is not empty after an add");
    zv_check(head->next == n && head->prev == n && n->next == head && n->prev == head, "one element is linked both ways");
}

void lemma_add_tail(zt_elist_t *head, zt_elist_t *z, zt_elist_t *n) {
    head->prev = z; z->next = head;
    zt_elist_t *f = head->next, *y = z->prev;
    zt_elist_add_tail(head, n);
    zv_check(head->prev == n && n->next == head, "an element added at the tail is last");
    zv_check(n->prev == z && z->next == n, "an element added at the tail follows the old last");
    zv_check(head->next == f && z->prev == y, "adding at the tail leaves the other links");
}

void lemma_add_tail_empty(zt_elist_t *head, zt_elist_t *n) {
    zt_elist_reset(head);
    zt_elist_add_tail(head, n);
    zv_check(head->next == n && head->prev == n && n->next == head && n->prev == head, "one element added at the tail is linked both ways");
}

void lemma_remove(zt_elist_t *p, zt_elist_t *e, zt_elist_t *x) {
    p->next = e; e->prev = p; e->next = x; x->prev = e;
    zt_elist_t *pp = p->prev, *xx = x->next;
    zt_elist_remove(e);
    zv_check(p->next == x && x->prev == p, "removal links the neighbours");
    zv_check(p->prev == pp && x->next == xx, "removal leaves the outer links");
}

void lemma_remove_only(zt_elist_t *head, zt_elist_t *e) {
    zt_elist_reset(head);
    zt_elist_add(head, e);
    zt_elist_remove(e);
    zv_check(zt_elist_empty(head) && head->prev == head, "removing the only element empties the list");
}

void lemma_join(zt_elist_t *head, zt_elist_t *a, zt_elist_t *list, zt_elist_t *f, zt_elist_t *l) {
    head->next = a; a->prev = head;
    list->next = f; f->prev = list; list->prev = l; l->next = list;
    zt_elist_t *t = head->prev, *f2 = f->next, *l2 = l->prev;
    zt_elist_join(head, list);
    zv_check(head->next == f && f->prev == head, "joined elements come first");
    zv_check(l->next == a && a->prev == l, "joined elements precede the old first");
    zv_check(head->prev == t && f->next == f2 && l->prev == l2, "joining leaves the other links");
}

void lemma_join_empty(zt_elist_t *head, zt_elist_t *list, zt_elist_t *f, zt_elist_t *l) {
    head->next = f; f->prev = head; head->prev = l; l->next = head;
    zt_elist_reset(list);
    zt_elist_t *f2 = f->next;
    zt_elist_join(head, list);
    zv_check(head->next == f && f->prev == head && head->prev == l && l->next == head && f->next == f2, "joining an empty list changes nothing");
}

/* last in, first out */
void lemma_stack(zt_stack_t *s, zt_stack_t *a, zt_stack_t *n, zt_stack_t *m) {
    s->next = a; a->prev = s;
    zt_stack_push(s, n);
    zt_stack_push(s, m);
    zv_check(zt_stack_peek(s) == m, "peek shows the last pushed");
    zv_check(zt_stack_pop(s) == m, "pop takes the last pushed");
    zv_check(zt_stack_pop(s) == n, "pop then takes the one before");
    zv_check(s->next == a && a->prev == s, "pushes and pops leave the rest");
}

void lemma_stack_empty(zt_stack_t *s, zt_stack_t *a) {
    zt_stack_reset(s);
    zv_check(zt_stack_pop(s) == NULL, "pop of an empty stack is null");
    zt_stack_push(s, a);
    zv_check(zt_stack_pop(s) == a && zt_stack_empty(s) && zt_stack_pop(s) == NULL, "pop of the only element empties the stack");
}

/* first in, first out */
void lemma_queue(zt_queue_t *q, zt_queue_t *a, zt_queue_t *n, zt_queue_t *m) {
    zt_queue_reset(q);
    zt_queue_enqueue(q, a);
    zt_queue_enqueue(q, n);
    zv_check(zt_queue_peek(q) == a, "peek shows the oldest");
    zv_check(zt_queue_dequeue(q) == a, "dequeue takes the oldest");
    zt_queue_enqueue(q, m);
    zv_check(zt_queue_dequeue(q) == n, "dequeue then takes the next oldest");
    zv_check(zt_queue_dequeue(q) == m, "dequeue takes the newest last");
    zv_check(zt_queue_empty(q) && zt_queue_dequeue(q) == NULL, "dequeue of an empty queue is null");
}

void lemma_queue_step(zt_queue_t *q, zt_queue_t *z, zt_queue_t *y, zt_queue_t *n) {
    q->prev = z; z->next = q; z->prev = y; y->next = z;
    zt_queue_t *f = q->next;
    f->prev = q;
    zt_queue_enqueue(q, n);
    zv_check(zt_queue_dequeue(q) == z, "the oldest element leaves first");
    zv_check(q->prev == y && y->next == q, "the next oldest is then at the end");
    zv_check(q->next == n && n->next == f && f->prev == n && n->prev == q, "the newest element is at the other end");
}
